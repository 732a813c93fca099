// P20 image files: the file system is replaced by an in-memory one that can run out of space
// MAXLEN: 400
// LIBS: -Wl,--wrap=fopen -lpng -ljpeg
#include "common.hpp"
#include "img.hpp"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_image_io_pnm.h"
#include "virg/nexus/nx_image_io_png.h"
#include "virg/nexus/nx_image_io_jpeg.h"
#include <png.h>
#include <strings.h>
typedef std::vector<uint8_t> Bytes;
static std::map<std::string, Bytes> g_fs; static size_t g_space; static long g_open = 0;
struct Cookie { Bytes *b; size_t pos; bool wr; };
static ssize_t ck_read(void *c, char *buf, size_t n) { Cookie *k = (Cookie *)c; n = std::min(n, k->b->size() - std::min(k->pos, k->b->size())); if (n) memcpy(buf, k->b->data() + k->pos, n); k->pos += n; return n; }
static ssize_t ck_write(void *c, const char *buf, size_t n) { Cookie *k = (Cookie *)c; size_t m = std::min(n, g_space); k->b->insert(k->b->end(), buf, buf + m); g_space -= m; if (!m) { errno = ENOSPC; return 0; } return m; }
static int ck_seek(void *c, off64_t *o, int w) { Cookie *k = (Cookie *)c; long p = *o + (w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)k->pos : (long)k->b->size()); if (p < 0) return -1; k->pos = p; *o = p; return 0; }
static int ck_close(void *c) { delete (Cookie *)c; --g_open; return 0; }
extern "C" FILE *__real_fopen(const char *path, const char *mode);
extern "C" FILE *__wrap_fopen(const char *path, const char *mode) {
  bool wr = mode[0] == 'w'; if (path[0] == '/' && (strstr(path, "/vf_fz_") || strstr(path, "/sw_"))) return __real_fopen(path, mode);   // files of the fuzzer itself
  if (!strncmp(path, "/none/", 6)) { errno = ENOENT; return nullptr; } if (!wr && !g_fs.count(path)) { errno = ENOENT; return nullptr; }
  if (wr) g_fs[path].clear(); ++g_open; return fopencookie(new Cookie{&g_fs[path], 0, wr}, mode, cookie_io_functions_t{ck_read, ck_write, ck_seek, ck_close}); }
static int ws(int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
// an independent reader of binary PGM and PPM
struct Pnm { bool ok = false; int type = 0, w = 0, h = 0, lev = 0; size_t start = 0; };
static Pnm parse(const Bytes &b) { Pnm r; size_t p = 2; if (b.size() < 3 || b[0] != 'P' || (b[1] != '5' && b[1] != '6')) return r; r.type = b[1] - '0'; int *f[3] = {&r.w, &r.h, &r.lev};
  bool seen = false, gap = false;      // comment lines directly after the magic number and each other; elsewhere they are not judged
  for (int i = 0; i < 3; ++i) { while (p < b.size() && (ws(b[p]) || (b[p] == '#' && i == 0))) if (b[p] == '#') { if (gap) return r; seen = true; while (p < b.size() && b[p] != '\n') ++p; if (p < b.size()) ++p; } else { if (seen || !strchr(" \n\t", b[p])) gap = true; ++p; } if (p >= b.size() || b[p] < '0' || b[p] > '9') return r; long v = 0; while (p < b.size() && b[p] >= '0' && b[p] <= '9') { v = std::min(v * 10 + b[p] - '0', 2000000000L); ++p; } *f[i] = (int)v; }
  if (p >= b.size() || !ws(b[p])) return r; r.start = p + 1; r.ok = r.w > 0 && r.h > 0 && r.lev > 0 && r.lev < 256; return r; }

static NXImage *mk_uc_dest(In &in, int w, int h) { NXImage *i = nx_image_alloc(); bool fit = w > 0 && h > 0 && w < 64 && h < 64; switch (in.pick(fit ? 7 : 4)) { case 4: nx_image_resize(i, w, h, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); break; case 5: nx_image_resize(i, w, h, -1, NX_IMAGE_RGBA, NX_IMAGE_UCHAR); break; case 6: nx_image_resize(i, w, h, 300, in.coin() ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); break; case 0: break; case 1: nx_image_resize(i, in.range(1, 30), in.range(1, 30), -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); break; case 2: nx_image_resize(i, in.range(1, 9), in.range(1, 9), 50, NX_IMAGE_RGBA, NX_IMAGE_UCHAR); break; default: nx_image_resize(i, in.range(1, 4), 1, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); } if (i->mem->ptr) memset(i->mem->ptr, 0x5b, i->mem->size); return i; }
static const NXImageLoadMode MODES[] = {NX_IMAGE_LOAD_AS_IS, NX_IMAGE_LOAD_GRAYSCALE, NX_IMAGE_LOAD_RGBA};
// the loaded image against a source of c channels (1, 3 or 4)
static void is_image(const NXImage *i, int w, int h, int c, const std::vector<int> &src, NXImageLoadMode m, double gtol, int tol = 0) {
  int t = m == NX_IMAGE_LOAD_AS_IS ? (c == 1 ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA) : m == NX_IMAGE_LOAD_GRAYSCALE ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA; shape_is(i, w, h, t, NX_IMAGE_UCHAR); Pix p = read_pix(i);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { const int *s = &src[((size_t)y * w + x) * c];
    if (t == NX_IMAGE_GRAYSCALE) { double g = c == 1 ? s[0] : 0.3 * s[0] + 0.59 * s[1] + 0.11 * s[2]; if (c == 1) CHECK(fabs(p.at(y, x) - g) <= tol, "gray pixel (%d,%d) is %g want %g", x, y, p.at(y, x), g); else CHECK(fabs(p.at(y, x) - g) <= gtol, "gray of colour pixel (%d,%d) is %g want %g", x, y, p.at(y, x), g); }
    else { for (int k = 0; k < 3; ++k) CHECK(fabs(p.at(y, 4 * x + k) - s[c == 1 ? 0 : k]) <= tol, "colour pixel (%d,%d) channel %d is %g want %d", x, y, k, p.at(y, 4 * x + k), s[c == 1 ? 0 : k]); CHECK(p.at(y, 4 * x + 3) == (c == 4 ? s[3] : 255), "alpha %g", p.at(y, 4 * x + 3)); } } }
static std::vector<int> ints(const NXImage *i, int keep) { Pix p = read_pix(i); std::vector<int> r; for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) for (int k = 0; k < keep; ++k) r.push_back((int)p.at(y, x * p.c + k)); return r; }
static void write_png(Bytes &out, int w, int h, int kind, const std::vector<int> &px, int c) {
  png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop q = png_create_info_struct(p);
  png_set_write_fn(p, &out, [](png_structp s, png_bytep d, png_size_t n) { Bytes *b = (Bytes *)png_get_io_ptr(s); b->insert(b->end(), d, d + n); }, [](png_structp) {});
  int ct = kind == 0 ? PNG_COLOR_TYPE_RGB : kind == 1 ? PNG_COLOR_TYPE_GRAY : kind == 2 ? PNG_COLOR_TYPE_GA : kind == 3 ? PNG_COLOR_TYPE_RGBA : PNG_COLOR_TYPE_GRAY;
  png_set_IHDR(p, q, w, h, 8, ct, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_BASE, PNG_FILTER_TYPE_BASE); if (kind == 4) { png_color_16 t; memset(&t, 0, sizeof t); t.gray = 7; png_set_tRNS(p, q, 0, 0, &t); } png_write_info(p, q);
  for (int y = 0; y < h; ++y) { Bytes row; for (int x = 0; x < w * c; ++x) row.push_back((uint8_t)px[(size_t)y * w * c + x]); png_write_row(p, row.data()); } png_write_end(p, q); png_destroy_write_struct(&p, &q); }
static int run(const uint8_t *data, size_t size) {
  g_fs.clear(); g_space = 1 << 24; g_open = 0; In in(data, size); int op = in.pick(8), w = in.range(1, 12), h = in.range(1, 12); auto m = MODES[in.pick(3)]; bool x = in.coin();
  switch (op) {
  case 0: case 1: { // save as PNM through either entry point, possibly running out of space
    auto t = in.coin() ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; NXImage *i = mk_image(in, w, h, t, NX_IMAGE_UCHAR); Pix before = read_pix(i); int c = t == NX_IMAGE_RGBA ? 3 : 1; auto px = ints(i, c);
    static const char *N[] = {"a.pgm", "b.PPM", "dir.x/c.ppm", "d.PGM", "noext", "e.xyz"}; std::string f = N[in.pick(6)]; bool full = in.coin(); if (full) g_space = in.pick((unsigned)(px.size() + 12)); if (in.pick(16) == 0) f = "/none/a.pgm";
    bool direct = in.coin(); NXResult r = NX_OK; LiveBlocks lb; size_t space = g_space;
    bool died = FATAL_IN(if (x) (direct ? nx_image_xsave_pnm : nx_image_xsave)(i, f.c_str()); else r = (direct ? nx_image_save_pnm : nx_image_save)(i, f.c_str()));
    bool ok = !died && r == NX_OK; if (!x) { CHECK(!died, "fatal in a save that reports errors"); CHECK(g_open == 0, "stream left open"); }
    if (f[0] == '/') CHECK(!ok); else { Bytes &b = g_fs[f]; Pnm q = parse(b); bool whole = q.ok && q.type == (c == 3 ? 6 : 5) && q.w == w && q.h == h && q.lev == 255 && b.size() - q.start == px.size(); if (whole) for (size_t k = 0; k < px.size(); ++k) CHECK(b[q.start + k] == px[k], "byte %zu of the file is %d want %d", k, b[q.start + k], px[k]);
      if (ok) CHECK(whole, "the save succeeded but the file is not the image"); else CHECK(!whole || space == b.size(), "the save failed with space left"); if (!full) CHECK(ok, "the save failed"); 
      if (ok) { NXImage *j = mk_uc_dest(in, w, h); NXResult r2 = NX_FAIL; r2 = nx_image_load(j, f.c_str(), m); CHECK(r2 == NX_OK, "a saved image does not load"); is_image(j, w, h, c, px, m, 1.01); nx_image_free(j); } }
    same_pix(i, before); nx_image_free(i); break; }
  case 2: case 3: { // load any text as PNM
    Bytes b; int kind = in.pick(8); bool col = in.coin(); int c = col ? 3 : 1; std::string s = col ? "P6" : "P5"; static const char *SEP[] = {" ", "\n", "\t", "  ", "\n\n", " \n"}; bool wild = kind == 0;
    auto sep = [&] { s += SEP[in.pick(6)]; }; sep(); if (kind == 1 || kind == 2) { s += s.back() == '\n' ? "" : "\n"; int n = in.range(1, 3); for (int k = 0; k < n; ++k) s += "#" + in.str(9, "abc #5P") + "\n"; if (s.find('\n', s.rfind('#')) != s.size() - 1) s += "\n"; }
    s += std::to_string(wild && in.coin() ? (int)(in.i32x() & 0x7fffffff) : w); sep(); s += std::to_string(wild && in.coin() ? (int)in.i32x() : h); sep(); s += std::to_string(wild && in.coin() ? (int)in.i32x() : 255); if (!(wild && in.pick(8) == 0)) s += SEP[in.pick(3)]; b.assign(s.begin(), s.end());
    if (wild && in.coin()) b[in.pick(b.size())] = in.u8(); 
    size_t n = (size_t)w * h * c; if (in.pick(4) == 0) n = in.pick(n + 3); uint32_t sd = in.u16() * 40503u + 7; bool lowb = in.coin(); for (size_t k = 0; k < n; ++k) { sd = sd * 1664525u + 1013904223u; b.push_back(lowb ? " \n\t#10"[(sd >> 24) % 6] : sd >> 24); }
    g_fs["f"] = b; Pnm q = parse(b); bool fit = q.ok && (long)q.w * q.h < 4000; bool whole = fit && b.size() - q.start >= (size_t)q.w * q.h * (q.type == 6 ? 3 : 1); bool hdr = b.size() >= 2 && b[0] == 'P' && (b[1] == '5' || b[1] == '6'); if (!q.ok && hdr) { /* signs and comments elsewhere: only required not to crash */ }
    NXImage *j = mk_uc_dest(in, q.w, q.h); NXResult r = NX_OK; int how = in.pick(3); bool died = FATAL_IN(if (how == 0) r = nx_image_load_pnm(j, "f", m); else if (how == 1) nx_image_xload_pnm(j, "f", m); else r = nx_image_load(j, "f", m)); if (how != 1) { CHECK(!died, "fatal in a load that reports errors"); CHECK(g_open == 0, "stream left open"); }
    bool ok = !died && r == NX_OK; if (whole) CHECK(ok, "a valid file of %d x %d is refused: %s", q.w, q.h, std::string(b.begin(), b.begin() + q.start).c_str()); if (!hdr) CHECK(!ok); if (fit && !whole) CHECK(!ok, "a truncated file loads");
    if (ok && whole) { int cc = q.type == 6 ? 3 : 1; std::vector<int> px(b.begin() + q.start, b.begin() + q.start + (size_t)q.w * q.h * cc); is_image(j, q.w, q.h, cc, px, m, 1.01); } nx_image_free(j); break; }
  case 4: { // PNG round trip
    auto t = in.coin() ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; NXImage *i = mk_image(in, w, h, t, NX_IMAGE_UCHAR); int c = t == NX_IMAGE_RGBA ? 4 : 1; auto px = ints(i, c); Pix before = read_pix(i); bool full = in.pick(4) == 0; if (full) g_space = in.pick(300); bool bad = false; bool died = FATAL_IN(if (x) nx_image_xsave(i, "a.png"); else bad = nx_image_save_png(i, "a.png") != NX_OK); if (!full) CHECK(!died && !bad, "a PNG is not saved"); 
    NXResult r = NX_OK; if (!full) { NXImage *j = mk_uc_dest(in, w, h); r = nx_image_load(j, "a.png", m); CHECK(r == NX_OK, "a saved PNG does not load"); is_image(j, w, h, c, px, m, 2.01); nx_image_free(j); } same_pix(i, before); nx_image_free(i); break; }
  case 5: { // PNG files of other programs
    int kind = in.pick(5), c = kind == 0 ? 3 : kind == 2 ? 2 : kind == 3 ? 4 : 1; std::vector<int> px; uint32_t sd = in.u16() * 40503u + 7; for (int k = 0; k < w * h * c; ++k) { sd = sd * 1664525u + 1013904223u; px.push_back(kind == 4 ? (sd >> 24) % 16 : sd >> 24); } write_png(g_fs["p.png"], w, h, kind, px, c);
    NXImage *j = mk_uc_dest(in, w, h); CHECK(nx_image_load(j, "p.png", m) == NX_OK, "a PNG does not load"); if (kind == 0 || kind == 1 || kind == 3) is_image(j, w, h, c, px, m, 2.01); else { std::vector<int> g; for (int k = 0; k < w * h; ++k) g.push_back(px[k * c]); if (m != NX_IMAGE_LOAD_RGBA) is_image(j, w, h, 1, g, m, 2.01); else shape_is(j, w, h, NX_IMAGE_RGBA, NX_IMAGE_UCHAR); } nx_image_free(j); break; }
  case 6: { // JPEG at full quality: flat colours and any gray image, approximately
    auto t = in.coin() ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; NXImage *i = mk_image(in, w, h, t, NX_IMAGE_UCHAR); int c = t == NX_IMAGE_RGBA ? 3 : 1; if (c == 3) for (int y = 0; y < h; ++y) for (int k = 0; k < 4 * w; ++k) i->data.uc[y * i->row_stride + k] = i->data.uc[k % 4]; auto px = ints(i, c); Pix before = read_pix(i); CHECK(nx_image_save(i, in.coin() ? "a.jpg" : "a.jpg") == NX_OK); NXImage *j = mk_uc_dest(in, w, h); CHECK(nx_image_load(j, "a.jpg", m) == NX_OK); is_image(j, w, h, c, px, m, 6, 6); nx_image_free(j); same_pix(i, before); nx_image_free(i); break; }
  default: { // formats
    Bytes b; int n = in.range(0, 6); static const uint8_t A[] = {'P', '1', '2', '3', '4', '5', '6', '7', 0xff, 0xd8, 0x89, 0x50, 0x4e, 0x47, ' '}; for (int k = 0; k < n; ++k) { uint8_t u = in.u8(); b.push_back(u & 0x80 ? u : A[u % 15]); } g_fs["h"] = b; int want = NX_IMAGE_FILE_FORMAT_UNKNOWN; if (n >= 4) { if (b[0] == 'P' && b[1] >= '4' && b[1] <= '6') want = NX_IMAGE_FILE_FORMAT_PNM_BINARY; if (b[0] == 'P' && b[1] >= '1' && b[1] <= '3') want = NX_IMAGE_FILE_FORMAT_PNM_ASCII; if (b[0] == 0xff && b[1] == 0xd8) want = NX_IMAGE_FILE_FORMAT_JPEG; if (b[0] == 0x89 && b[1] == 0x50 && b[2] == 0x4e && b[3] == 0x47) want = NX_IMAGE_FILE_FORMAT_PNG; }
    CHECK((int)nx_image_file_format_from_header("h") == want, "format of a header"); CHECK(nx_image_file_format_from_header("/none/x") == NX_IMAGE_FILE_FORMAT_UNKNOWN); CHECK(g_open == 0, "stream left open");
    static const char *X[] = {".pgm", ".ppm", ".PGM", ".PPM", ".jpg", ".jpeg", ".JPG", ".JPEG", ".png", ".PNG", ".txt", "", ".pgm.x", ".", ".p", ".pgm2"}; int e = in.pick(16); std::string f = in.str(6, "ab./pgm") ; bool dotless = f.find('.') == std::string::npos; f += X[e]; int wf = e < 4 ? NX_IMAGE_FILE_FORMAT_PNM_BINARY : e < 8 ? NX_IMAGE_FILE_FORMAT_JPEG : e < 10 ? NX_IMAGE_FILE_FORMAT_PNG : NX_IMAGE_FILE_FORMAT_UNKNOWN; if (e != 11 || dotless) CHECK((int)nx_image_file_format_from_filename(f.c_str()) == wf, "format of name %s", f.c_str()); } }
  return 0;
}

ENTRY {
  g_fs.clear(); long f0 = g_fatal_count; { LiveBlocks live; run(data, size); g_fs.clear(); if (live.now() <= 0 || g_fatal_count != f0) return 0; }
  LiveBlocks live; run(data, size); g_fs.clear(); CHECK(live.now() <= 0, "%ld blocks left", live.now()); return 0; }   // the first run may fill caches of the library
