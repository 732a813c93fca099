// P22 keypoints: FAST corners, scores, non-maximum suppression, orientation, BRIEF descriptors, stored forms
// MAXLEN: 700
// CSRC: fast/fast_9.c fast/fast_nonmax.c
#include "common.hpp"
#include "img.hpp"
#include "virg/nexus/nx_fast_detector.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/nx_image_pyr.h"
static const int RX[16] = {0, 1, 2, 3, 3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1}, RY[16] = {3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1, 0, 1, 2, 3};
static bool corner(const NXImage *i, int x, int y, int b) { int c = i->data.uc[y * i->row_stride + x]; for (int s = -1; s <= 1; s += 2) for (int k = 0; k < 16; ++k) { bool all = true; for (int j = 0; j < 9 && all; ++j) { int m = (k + j) & 15, v = i->data.uc[(y + RY[m]) * i->row_stride + x + RX[m]]; all = s > 0 ? v > c + b : v < c - b; } if (all) return true; } return false; }
static int score_of(const NXImage *i, int x, int y, int b) { int r = b; for (int t = b; t < 256; ++t) if (corner(i, x, y, t)) r = t; else break; return r; }
struct Key { int x, y, score; };
static std::vector<Key> corners_of(const NXImage *i, int b) { std::vector<Key> r; for (int y = 3; y < i->height - 3; ++y) for (int x = 3; x < i->width - 3; ++x) if (corner(i, x, y, b)) r.push_back({x, y, 0}); return r; }
static std::vector<Key> suppressed(const std::vector<Key> &k) { std::vector<Key> r; std::map<std::pair<int, int>, int> m; for (auto &a : k) m[{a.x, a.y}] = a.score; for (auto &a : k) { bool keep = true; for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) if (dx || dy) { auto it = m.find({a.x + dx, a.y + dy}); if (it != m.end() && it->second >= a.score) keep = false; } if (keep) r.push_back(a); } return r; }
// images with rings of chosen classes around some pixels, so that every branch of the detector is reachable
static void paint(In &in, NXImage *i) { int n = in.range(0, 3); for (int k = 0; k < n; ++k) { if (i->width < 7 || i->height < 7) return; int x = in.range(3, i->width - 4), y = in.range(3, i->height - 4), c = in.u8(); i->data.uc[y * i->row_stride + x] = c; uint32_t v = in.u32(); int st = in.pick(16), len = in.range(7, 12), d = in.u8(); bool up = in.coin(); for (int m = 0; m < 16; ++m) { int a = ((m - st) & 15) < len ? (up ? c + d : c - d) : (int)((v >> (2 * m)) & 3) == 0 ? c : c + (int)((v >> (2 * m)) & 3) * 40 - 80; i->data.uc[(y + RY[m]) * i->row_stride + x + RX[m]] = std::min(std::max(a, 0), 255); } } }
static NXImage *picture(In &in, int w, int h) { NXImage *i = mk_image(in, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); paint(in, i); return i; }
static double ori_of(const NXImage *i, int x, int y, int r, bool *in_) { *in_ = x >= r && x < i->width - r && y >= r && y < i->height - r; if (!*in_) return 0; long a = 0, b = 0; for (int v = -r; v < r; ++v) for (int u = -r; u < r; ++u) if (u * u + v * v < r * r) { int p = i->data.uc[(y + v) * i->row_stride + x + u]; a += u * p; b += v * p; } return atan2((double)b, (double)a); }
static NXImagePyr *pyramid(In &in, int n) { NXImagePyr *p = nx_image_pyr_alloc(); nx_image_pyr_alloc_levels(p, n); float s = 1; for (int k = 0; k < n; ++k) { int w = in.range(4, 26), h = in.range(4, 26); nx_image_pyr_create_level(p, k, w, h, s, 0.5f * (k + 1)); NXImage *i = p->levels[k].img; uint32_t z = in.u16() + 1; int md = in.u8() & 1; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { z = z * 1664525u + 1013904223u; i->data.uc[y * i->row_stride + x] = md ? (z >> 31) * 200 : z >> 24; } paint(in, i); p->levels[k].scale = s; p->levels[k].sigma = 0.5f * (k + 1); s *= in.coin() ? 2.0f : 1.5f; } return p; }
static void key_is(const NXKeypoint &k, int x, int y, int lev, float scale, float sigma, double score, uint64_t id) { CHECK(k.x == x && k.y == y, "corner (%d,%d) want (%d,%d)", k.x, k.y, x, y); CHECK(k.xs == (float)x && k.ys == (float)y && k.level == lev && k.scale == scale && k.sigma == sigma && k.id == id, "fields of corner (%d,%d)", x, y); CHECK(k.score == score, "score of (%d,%d) is %g want %g", x, y, k.score, score); }
ENTRY {
  LiveBlocks live; long f0 = g_fatal_count; { In in(data, size); int op = in.pick(9);
  switch (op) {
  case 0: case 1: { int w = in.range(1, 26), h = in.range(1, 26); NXImage *i = picture(in, w, h); Pix before = read_pix(i); int b = in.coin() ? in.range(0, 40) : in.u8(), mx = in.coin() ? 700 : in.range(1, 12); auto want = corners_of(i, b); std::vector<NXKeypoint> k(mx), o(mx); memset(k.data(), 0x7a, mx * sizeof(NXKeypoint)); int n = nx_fast_detect_keypoints(mx, k.data(), i, b); CHECK(n == (int)std::min<size_t>(mx, want.size()), "%d corners want %zu (at most %d)", n, want.size(), mx);
    for (int j = 0; j < n; ++j) key_is(k[j], want[j].x, want[j].y, 0, 1, 0, 0, j); int b2 = in.coin() ? b : in.range(0, b); nx_fast_score_keypoints(n, k.data(), i, b2); want.resize(n); for (int j = 0; j < n; ++j) { want[j].score = score_of(i, want[j].x, want[j].y, b2); key_is(k[j], want[j].x, want[j].y, 0, 1, 0, want[j].score, j); }
    if (in.coin()) for (int j = 0; j < n; ++j) { want[j].score = in.u8() % 5; k[j].score = want[j].score; } int m2 = in.coin() ? mx : in.range(0, 6); auto sp = suppressed(want); m2 = std::min(m2, mx); int n2 = nx_fast_suppress_keypoints(m2, o.data(), n, k.data()); CHECK(n2 == (int)std::min<size_t>(m2, sp.size()), "%d kept, want %zu (at most %d)", n2, sp.size(), m2); for (int j = 0; j < n2; ++j) key_is(o[j], sp[j].x, sp[j].y, 0, 1, 0, sp[j].score, j); same_pix(i, before); nx_image_free(i); break; }
  case 2: { int w = in.range(7, 26), h = in.range(7, 26); NXImage *i = picture(in, w, h); NXFastDetector *d = nx_fast_detector_alloc(); d->threshold = in.range(0, 60); d->work_multiplier = in.coin() ? 300 : in.range(1, 3); int ori = in.pick(3), r = in.range(1, 5); if (ori) nx_fast_detector_set_ori_param(d, NX_TRUE, in.range(1, 9)); if (ori) nx_fast_detector_set_ori_param(d, ori == 1 ? NX_TRUE : NX_FALSE, r); int mx = in.range(1, 30);
    auto want = corners_of(i, d->threshold); size_t lim = (size_t)mx * d->work_multiplier; if (want.size() > lim) want.resize(lim); for (auto &a : want) a.score = score_of(i, a.x, a.y, d->threshold); auto sp = suppressed(want); if ((int)sp.size() > mx) sp.resize(mx); for (int rep = 0; rep < 2; ++rep) { std::vector<NXKeypoint> k(mx); int n = nx_fast_detector_detect(d, mx, k.data(), i); CHECK(n == (int)sp.size(), "%d keys want %zu", n, sp.size()); for (int j = 0; j < n; ++j) { key_is(k[j], sp[j].x, sp[j].y, 0, 1, 0, sp[j].score, j); bool ins = false; double o = ori == 1 ? ori_of(i, sp[j].x, sp[j].y, r, &ins) : 0; CHECK(fabs(k[j].ori - (ins ? o : 0)) < 1e-5, "orientation %g want %g", k[j].ori, o); } }
    int t = d->threshold = in.range(5, 250), m3 = in.range(0, 3000), k3 = in.range(0, 3000); nx_fast_detector_adapt_threshold(d, k3, m3); double q = (double)k3; int e = q >= (1014L * m3) / 1024 ? std::min(250, t + 3) : q <= (716L * m3) / 1024 ? std::max(5, t - 3) : q <= (921L * m3) / 1024 ? std::max(5, t - 1) : t; CHECK(d->threshold == e, "threshold %d want %d", d->threshold, e); nx_fast_detector_free(d); nx_image_free(i); break; }
  case 3: { int nl = in.range(1, 4); NXImagePyr *p = pyramid(in, nl); int b = in.range(0, 60), mx = in.range(1, 20), wm = in.coin() ? 300 : in.range(1, 3), use = in.range(-1, 5); int lv = use <= 0 || use > nl ? nl : use; bool cls = in.coin(); std::vector<NXKeypoint> k(mx), wk((size_t)mx * wm); int n; NXFastDetector *d = nullptr; if (cls) { d = nx_fast_detector_alloc(); d->threshold = b; d->work_multiplier = wm; n = nx_fast_detector_detect_pyr(d, mx, k.data(), p, use); } else n = nx_fast_detect_keypoints_pyr(mx, k.data(), (int)wk.size(), wk.data(), p, b, use);
    int at = 0; for (int l = lv - 1; l >= 0 && at < mx; --l) { NXImage *i = p->levels[l].img; auto want = corners_of(i, b); if (want.size() > wk.size()) want.resize(wk.size()); for (auto &a : want) a.score = score_of(i, a.x, a.y, b); for (auto &a : suppressed(want)) { if (at == mx) break; CHECK(at < n, "%d keys, more wanted", n); key_is(k[at], a.x, a.y, l, p->levels[l].scale, p->levels[l].sigma, a.score, at); ++at; } } CHECK(at == n, "%d keys want %d", n, at); if (d) nx_fast_detector_free(d); nx_image_pyr_free(p); break; }
  case 4: case 5: { int nl = in.range(1, 4); NXImagePyr *p = pyramid(in, nl); int no = in.range(1, 4), r = in.range(4, 9); NXBriefExtractor *be = nx_brief_extractor_new_with_seed(no, r, in.u16()); be->pyr_level_offset = in.range(0, 2); int rs = in.pick(3); if (rs) { no = in.range(1, 6); r = in.range(4, 9); nx_brief_extractor_resize(be, no, r); nx_brief_extractor_randomize_with_seed(be, in.u16()); } int L[4] = {99, -99, 99, -99}; for (int j = 0; j < no * 8; ++j) { int *o = be->offsets + 4 * j; for (int c = 0; c < 4; ++c) { CHECK(o[c] >= -r && o[c] < r, "offset %d radius %d", o[c], r); int q = c & 1 ? 2 : 0; L[q] = std::min(L[q], o[c]); L[q + 1] = std::max(L[q + 1], o[c]); } CHECK((o[0] - o[2]) * (o[0] - o[2]) + (o[1] - o[3]) * (o[1] - o[3]) >= 9, "test pair too close"); } for (int c = 0; c < 4; ++c) CHECK(be->offset_limits[c] == L[c], "limit %d", c); CHECK(be->n_octets == no && be->radius == r);
    int lev = in.range(0, nl - 1), x = in.range(-4, 30), y = in.range(-4, 30), sl = lev + be->pyr_level_offset; NXBool ok = nx_brief_extractor_check_point_pyr(be, p, x, y, lev); if (sl >= nl) { CHECK(!ok, "level outside the pyramid accepted"); } else { NXImage *i = p->levels[sl].img; float f = p->levels[lev].scale / p->levels[sl].scale; bool e = true; for (int j = 0; j < no * 16; ++j) { int sx = (x + be->offsets[2 * j]) * f, sy = (y + be->offsets[2 * j + 1]) * f; e = e && sx >= 0 && sx < i->width && sy >= 0 && sy < i->height; } CHECK(!!ok == e, "check says %d, all samples inside: %d", ok, e);
      float th = op == 4 ? 0 : in.f32(); std::vector<uint8_t> ds(no + 2, 0xee); auto at = [&](int sx, int sy) { return i->data.uc[sy * i->row_stride + sx]; };
      if (op == 4 && ok) { nx_brief_extractor_compute_pyr(be, p, x, y, lev, ds.data()); for (int j = 0; j < no * 8; ++j) { int *o = be->offsets + 4 * j; int bit = at((x + o[0]) * f, (y + o[1]) * f) > at((x + o[2]) * f, (y + o[3]) * f); CHECK(((ds[j / 8] >> (7 - j % 8)) & 1) == bit, "descriptor bit %d", j); } CHECK(ds[no] == 0xee, "descriptor overrun"); }
      if (op == 5) { NXBool g = nx_brief_extractor_compute_pyr_at_theta(be, p, x, y, lev, th, ds.data()); CHECK(ds[no] == 0xee, "descriptor overrun"); double c = cos(th), s = sin(th); bool sure = true, inside = true; std::vector<int> bits; for (int j = 0; j < no * 8; ++j) { int *o = be->offsets + 4 * j; int S[4]; for (int q = 0; q < 2; ++q) { double u = (x + c * o[2 * q] + s * o[2 * q + 1]) * f, v = (y - s * o[2 * q] + c * o[2 * q + 1]) * f; if (fabs(u - round(u)) < 1e-3 || fabs(v - round(v)) < 1e-3) sure = false; S[2 * q] = (int)u; S[2 * q + 1] = (int)v; if (S[2 * q] < 0 || S[2 * q] >= i->width || S[2 * q + 1] < 0 || S[2 * q + 1] >= i->height) inside = false; } if (inside) bits.push_back(at(S[0], S[1]) > at(S[2], S[3])); } if (sure) { CHECK(!!g == inside, "inside %d said %d", inside, g); if (g) for (int j = 0; j < no * 8; ++j) CHECK(((ds[j / 8] >> (7 - j % 8)) & 1) == bits[j], "rotated descriptor bit %d", j); } } }
    nx_brief_extractor_free(be); nx_image_pyr_free(p); break; }
  case 6: { int n = in.range(0, 40); std::vector<uint8_t> a, b; int e = 0; for (int j = 0; j < n; ++j) { a.push_back(in.u8()); b.push_back(in.u8()); e += __builtin_popcount(a[j] ^ b[j]); } CHECK(nx_brief_extractor_descriptor_distance(n, a.data(), b.data()) == e, "distance"); break; }
  case 7: { NXBriefExtractor *a = nx_brief_extractor_new_with_seed(in.range(1, 6), in.range(4, 12), in.u16()), *b = nx_brief_extractor_new_with_seed(in.range(1, 6), in.range(4, 12), in.u16()); a->pyr_level_offset = in.range(0, 3); char buf[2000]; FILE *f = fmemopen(buf, sizeof buf, "w+"); CHECK(nx_brief_extractor_write(a, f) == NX_OK); fflush(f); long len = ftell(f); rewind(f); CHECK(nx_brief_extractor_read(b, f) == NX_OK, "a stored extractor is not read"); CHECK(b->radius == a->radius && b->n_octets == a->n_octets && b->pyr_level_offset == a->pyr_level_offset, "stored radius %d octets %d read as %d %d", a->radius, a->n_octets, b->radius, b->n_octets); CHECK(!memcmp(a->offsets, b->offsets, a->n_octets * 32 * sizeof(int)) && !memcmp(a->offset_limits, b->offset_limits, sizeof a->offset_limits), "offsets"); fclose(f);
    size_t cut = in.pick((unsigned)len); if (cut) { std::vector<char> sm(cut); f = fmemopen(sm.data(), cut, "w"); setvbuf(f, nullptr, _IONBF, 0); CHECK(nx_brief_extractor_write(a, f) != NX_OK, "a short write is not reported"); fclose(f); } f = fmemopen(buf, cut ? cut : 1, "r"); if (!cut) fgetc(f); CHECK(nx_brief_extractor_read(b, f) != NX_OK, "a truncated extractor is read"); fclose(f); nx_brief_extractor_free(a); nx_brief_extractor_free(b); break; }
  default: { int n = in.range(0, 12); std::vector<NXKeypoint> a(n), b(n + 1); for (auto &k : a) { memset(&k, 0, sizeof k); k.x = in.i32x(); k.y = in.i32x(); k.xs = in.f32(); k.ys = in.f32(); k.level = in.u8(); k.scale = in.f32(); k.sigma = in.f32(); k.score = in.f32(); k.ori = in.f32(); k.id = in.u64(); } memset(b.data(), 0x6b, b.size() * sizeof(NXKeypoint)); char buf[1000]; FILE *f = fmemopen(buf, sizeof buf, "w+"); CHECK(nx_keypoint_write(a.data(), n, f) == n); fflush(f); long len = ftell(f); rewind(f); int m = in.range(0, n); CHECK(nx_keypoint_read(b.data(), m, f) == m); auto eqk = [&](const NXKeypoint &p, const NXKeypoint &q) { return p.x == q.x && p.y == q.y && p.xs == q.xs && p.ys == q.ys && p.level == q.level && p.scale == q.scale && p.sigma == q.sigma && p.score == q.score && p.ori == q.ori && p.id == q.id; }; for (int j = 0; j < m; ++j) CHECK(eqk(a[j], b[j]), "keypoint %d", j); for (size_t q = (size_t)m * sizeof(NXKeypoint); q < b.size() * sizeof(NXKeypoint); ++q) CHECK(((uint8_t *)b.data())[q] == 0x6b, "read wrote beyond"); fclose(f);
    if (len > 1) { size_t cut = in.range(1, (int)len - 1); f = fmemopen(buf, cut, "r"); int g = nx_keypoint_read(b.data(), n, f); CHECK(g < n && g == (int)(cut / (len / n)), "a truncated list of %d gives %d", n, g); for (int j = 0; j < g; ++j) CHECK(eqk(a[j], b[j])); fclose(f); bool died = FATAL_IN(FILE *h = fmemopen(buf, cut, "r"); setvbuf(h, nullptr, _IONBF, 0); nx_keypoint_xread(b.data(), n, h)); CHECK(died, "a truncated list is accepted"); } } } }
  if (g_fatal_count == f0) CHECK(live.now() <= 0, "%ld blocks left", live.now());
  return 0;
}
