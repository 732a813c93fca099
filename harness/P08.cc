// P08 data frames: histories against a model; CSV text written and read back against independent rules
// MAXLEN: 400
#include "common.hpp"
#include <unistd.h>
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_csv_parser.h"
#include "virg/nexus/nx_csv_lexer.h"
#include "virg/nexus/nx_alloc.h"
#include <cerrno>
#include <climits>
typedef std::string S;
enum { STR, INT, DBL, BOO, FAC };
struct V { bool na = true; S s; int i = 0; double d = 0; };
struct C { int ty; S label; std::vector<V> v; std::vector<S> lev; };
struct F { std::vector<C> c; int rows = 0; };
static bool same(double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
static int level(C &c, const S &s) { for (size_t i = 0; i < c.lev.size(); ++i) if (c.lev[i] == s) return (int)i; c.lev.push_back(s); return (int)c.lev.size() - 1; }
static void compare(const NXDataFrame *df, const F &f) {
  CHECK(nx_data_frame_n_columns(df) == (int)f.c.size() && nx_data_frame_n_rows(df) == f.rows, "size %d x %d, want %zu x %d", nx_data_frame_n_columns(df), nx_data_frame_n_rows(df), f.c.size(), f.rows);
  for (int c = 0; c < (int)f.c.size(); ++c) {
    const C &m = f.c[c]; const NXDataColumn *dc = nx_data_frame_column(df, c);
    CHECK((int)nx_data_column_type(dc) == m.ty, "type of column %d: %d want %d", c, nx_data_column_type(dc), m.ty); CHECK(m.label == nx_data_column_label(dc), "label of column %d: '%s' want '%s'", c, nx_data_column_label(dc), m.label.c_str());
    CHECK(nx_data_column_n_factor_levels(dc) == (int)m.lev.size(), "levels of column %d", c);
    for (int k = 0; k < (int)m.lev.size(); ++k) CHECK(m.lev[k] == nx_data_column_factor_level(dc, k), "level");
    for (int r = 0; r < f.rows; ++r) {
      const V &v = m.v[r]; CHECK(!!nx_data_frame_is_na(df, r, c) == v.na, "n/a at %d,%d", r, c); if (v.na) continue;
      switch (m.ty) {
        case STR: CHECK(v.s == nx_data_frame_get_string(df, r, c), "string at %d,%d", r, c); break;
        case INT: CHECK(v.i == nx_data_frame_get_int(df, r, c), "int at %d,%d: %d want %d", r, c, nx_data_frame_get_int(df, r, c), v.i); break;
        case DBL: CHECK(same(v.d, nx_data_frame_get_double(df, r, c)), "double at %d,%d: %.17g want %.17g", r, c, nx_data_frame_get_double(df, r, c), v.d); break;
        case BOO: CHECK(!v.i == !nx_data_frame_get_bool(df, r, c), "bool at %d,%d", r, c); break;
        case FAC: CHECK(v.s == nx_data_frame_get_factor(df, r, c), "factor at %d,%d", r, c); break;
      }
    }
  }
}
static S num(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static S text(const C &m, const V &v) { return m.ty == INT ? std::to_string(v.i) : m.ty == DBL ? num(v.d) : m.ty == BOO ? (v.i ? "true" : "false") : v.s; }
static S quoted(const S &s) { S o = "\""; for (char c : s) { o += c; if (c == '"') o += c; } return o + '"'; }
static S csv(const F &f, const S &sep) {
  S o; int nc = (int)f.c.size();
  for (int c = 0; c < nc; ++c) o += quoted(f.c[c].label) + (c + 1 < nc ? sep : S("\n"));
  for (int r = 0; r < f.rows; ++r) for (int c = 0; c < nc; ++c) { const V &v = f.c[c].v[r]; if (!v.na) o += f.c[c].ty == STR || f.c[c].ty == FAC ? quoted(v.s) : text(f.c[c], v); o += c + 1 < nc ? sep : S("\n"); }
  return o;
}
// independent reader: records of fields; kind 0 missing, 1 plain, 2 quoted. false: not a CSV table
struct Fld { int k; S t; };
static bool records(const S &t, std::vector<std::vector<Fld>> &out) {
  size_t p = 0; if (t.empty()) return false;
  while (p < t.size()) {
    std::vector<Fld> r;
    if (t[p] == '\n') return false;
    for (;;) {
      Fld f{0, ""};
      if (p < t.size() && t[p] == '"') { f.k = 2; ++p; for (;;) { if (p >= t.size()) return false; if (t[p] == '"') { if (p + 1 < t.size() && t[p + 1] == '"') { f.t += '"'; p += 2; continue; } ++p; break; } f.t += t[p++]; } }
      else if (p < t.size() && t[p] != ',' && t[p] != '\n') { f.k = 1; while (p < t.size() && t[p] != ',' && t[p] != '\n') { if (t[p] == '"') return false; f.t += t[p++]; } }
      r.push_back(f);
      if (p >= t.size() || t[p] == '\n') break;
      if (t[p] != ',') return false;
      ++p;
    }
    if (p < t.size()) ++p;
    if (!out.empty() && r.size() != out[0].size()) return false;
    out.push_back(r);
  }
  return true;
}
// decimal integer in range / number / word, by their own grammar
static int kind(const S &t) {
  if (t == "true" || t == "false") return BOO;
  size_t p = 0; while (p < t.size() && isspace((unsigned char)t[p])) ++p;
  size_t q = p; if (q < t.size() && (t[q] == '-' || t[q] == '+')) ++q; size_t d = q; while (d < t.size() && isdigit((unsigned char)t[d])) ++d;
  if (d == t.size() && d > q) { __int128 v = 0; bool big = false; for (size_t i = q; i < d; ++i) { v = v * 10 + (t[i] - '0'); if (v > ((__int128)1 << 100)) { big = true; v >>= 20; } } if (t[p] == '-') v = -v; if (!big && v >= INT_MIN && v <= INT_MAX) return INT; }
  char *e; double v = strtod(t.c_str(), &e); if (e == t.c_str() || *e) return STR;
  if (std::isinf(v)) { for (char c : t) if (tolower(c) == 'n') return DBL; return STR; }   // overflow, not a written infinity
  return DBL;
}
static int join(int a, int b) { if (a == b) return a; if ((a == INT && b == DBL) || (a == DBL && b == INT)) return DBL; return STR; }
static bool table(const S &t, F &f) {
  std::vector<std::vector<Fld>> R; if (!records(t, R)) return false;
  size_t nc = R[0].size(); f.rows = (int)R.size() - 1;
  for (size_t c = 0; c < nc; ++c) {
    C m; m.label = R[0][c].t; m.ty = -1;
    for (size_t r = 1; r < R.size(); ++r) { const Fld &x = R[r][c]; if (x.k) { int k = x.k == 2 ? STR : kind(x.t); m.ty = m.ty < 0 ? k : join(m.ty, k); } }
    if (m.ty < 0) m.ty = STR;
    for (size_t r = 1; r < R.size(); ++r) { const Fld &x = R[r][c]; V v; if (x.k) { v.na = false; v.s = x.t; if (m.ty == INT) v.i = (int)strtoll(x.t.c_str(), 0, 10); if (m.ty == DBL) v.d = strtod(x.t.c_str(), 0); if (m.ty == BOO) v.i = x.t == "true"; } m.v.push_back(v); }
    f.c.push_back(m);
  }
  return true;
}
static void factor(C &m) { if (m.ty == FAC) return; for (auto &v : m.v) if (!v.na) { v.s = text(m, v); level(m, v.s); } m.ty = FAC; }
static bool read_back(const S &t, bool fac) {     // false: ended in the fatal handler
  F w; bool ok = table(t, w); if (ok && fac) for (auto &m : w.c) if (m.ty == STR) factor(m);
  NXDataFrame *df = nullptr; bool d;
  if (t.empty()) d = FATAL_IN({ NXCSVLexer *x = nx_csv_lexer_new(""); NXCSVParser *p = nx_csv_parser_new(x); df = nx_csv_parser_parse(p); });
  else { FILE *s = fmemopen((void *)t.data(), t.size(), "r"); d = FATAL_IN(df = nx_data_frame_load_csv_stream(s, fac)); fclose(s); }
  CHECK(d == !ok, "table accepted %d, want %d: %s", !d, ok, t.c_str());
  if (d) return false;
  compare(df, w); nx_data_frame_free(df); return true;
}
static const char *AL = "ab,\"\n\\ 1.x";
static double dbl(In &in) { switch (in.pick(8)) { case 0: return 0.1 * in.u8(); case 1: return -0.0; case 2: return INFINITY; case 3: return NAN; case 4: return 5e-324 * in.u8(); case 5: return 1.7976931348623157e308; case 6: return (double)(int)in.u32(); default: { uint64_t u = in.u64(); double d; memcpy(&d, &u, 8); return d != d ? 1.5 : d; } } }
static S cell(In &in) {
  static const char *W[] = {"true", "false", "0", "7", "-12", "+3", "010", "0x1F", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "1.5", "-2e3", "1e400", "4e-320", "nan", "inf", "-inf", "True", " 5", "5 ", "1e", ".5", "x", "truefalse", "0.1", "1.", "--1", "\"q\"\"z\"", "\"1\"", "\"\"", "\"a,b\n\"", "", "", "0b1", "1_0"};
  return W[in.pick(sizeof W / sizeof *W)];
}
static void run(const uint8_t *data, size_t size) {
  In in(data, size);
  unsigned mode = in.pick(5);
  if (mode == 0) {            // a table of cells
    S t; int nc = in.range(1, 4), nr = in.range(1, 6); bool bad = in.pick(8) == 0;
    for (int r = 0; r < nr; ++r) { int n = bad && in.pick(3) == 0 ? in.range(1, 5) : nc; for (int c = 0; c < n; ++c) t += (c ? "," : "") + cell(in); if (r + 1 < nr || in.coin()) t += "\n"; }
    read_back(t, in.coin()); return;
  }
  if (mode == 1) { S t = in.str(60, AL); read_back(t, in.coin()); return; }
  {
    F f; NXDataFrame *df = nx_data_frame_alloc(); int ops = 0;
    while (in.more() && ops++ < 60) {
      unsigned op = in.pick(20); int nc = (int)f.c.size(); int c = nc ? in.pick(nc) : 0, r = f.rows ? in.pick(f.rows) : 0; bool cell = nc && f.rows;
      if (op <= 1 || nc == 0) { if (nc >= 6) continue; if (in.pick(4) == 0) { NXDataColumnType ty[3]; S l[3]; const char *lp[3]; int n = in.range(0, 3); for (int k = 0; k < n; ++k) { C m; m.ty = in.pick(5); m.label = l[k] = in.str(5, AL); lp[k] = l[k].c_str(); ty[k] = (NXDataColumnType)m.ty; m.v.resize(f.rows); f.c.push_back(m); } nx_data_frame_add_columns(df, n, ty, lp); } else { C m; m.ty = in.pick(5); m.label = in.str(5, AL); m.v.resize(f.rows); f.c.push_back(m); nx_data_frame_add_column(df, (NXDataColumnType)m.ty, m.label.c_str()); } }
      else if (op <= 3) { CHECK(nx_data_frame_add_row(df) == f.rows, "row id"); ++f.rows; for (auto &m : f.c) m.v.emplace_back(); }
      else if (op <= 5 && nc <= 4) {      // variadic: integer class and floating class arguments, each in column order
        long g[4] = {0, 0, 0, 0}; double d[4] = {0, 0, 0, 0}; S s[4]; int ng = 0, nd = 0; bool app = op == 4 || !f.rows; if (app) { for (auto &m : f.c) m.v.emplace_back(); r = f.rows; }
        for (int k = 0; k < nc; ++k) { C &m = f.c[k]; V v; v.na = false; if (m.ty == DBL) d[nd++] = v.d = dbl(in); else if (m.ty == INT) g[ng++] = v.i = (int)in.i32x(); else if (m.ty == BOO) g[ng++] = v.i = in.coin(); else { s[k] = v.s = in.str(5, AL); g[ng++] = (long)s[k].c_str(); if (m.ty == FAC) level(m, v.s); } m.v[r] = v; }
        if (app) { CHECK(nx_data_frame_append_row(df, g[0], g[1], g[2], g[3], d[0], d[1], d[2], d[3]) == f.rows, "row id"); ++f.rows; } else nx_data_frame_set(df, r, g[0], g[1], g[2], g[3], d[0], d[1], d[2], d[3]);
      }
      else if (op <= 11 && cell) {       // one setter, possibly of another type: then the program ends and nothing has changed
        C &m = f.c[c]; int ty = in.pick(6) ? m.ty : in.pick(5); V v; v.na = false; bool d;
        switch (ty) {
          case STR: v.s = in.str(8, AL); d = FATAL_IN(nx_data_frame_set_string(df, r, c, v.s.c_str())); break;
          case INT: v.i = (int)in.i32x(); d = FATAL_IN(nx_data_frame_set_int(df, r, c, v.i)); break;
          case DBL: v.d = dbl(in); d = FATAL_IN(nx_data_frame_set_double(df, r, c, v.d)); break;
          case BOO: v.i = in.coin(); d = FATAL_IN(nx_data_frame_set_bool(df, r, c, v.i)); break;
          default: v.s = in.str(3, "abc"); d = FATAL_IN(nx_data_frame_set_factor(df, r, c, v.s.c_str())); break;
        }
        CHECK(d == (ty != m.ty), "setter of another type"); if (!d) { if (ty == FAC) level(m, v.s); m.v[r] = v; }
      }
      else if (op == 12 && cell) { nx_data_frame_set_na(df, r, c); f.c[c].v[r] = V(); }
      else if (op == 13 && cell) { C &m = f.c[c]; int ty = in.pick(5); bool d; switch (ty) { case STR: d = FATAL_IN(nx_data_frame_get_string(df, r, c)); break; case INT: d = FATAL_IN(nx_data_frame_get_int(df, r, c)); break; case DBL: d = FATAL_IN(nx_data_frame_get_double(df, r, c)); break; case BOO: d = FATAL_IN(nx_data_frame_get_bool(df, r, c)); break; default: d = FATAL_IN(nx_data_frame_get_factor(df, r, c)); } CHECK(d == (ty != m.ty || m.v[r].na), "getter of another type or of a missing element"); }
      else if (op == 14) { factor(f.c[c]); nx_data_frame_make_factor(df, c); }
      else if (op == 15 && cell && !f.c[c].v[r].na) { int r2 = in.pick(f.rows); C &m = f.c[c]; if (m.ty == STR) { nx_data_frame_set_string(df, r2, c, nx_data_frame_get_string(df, r, c)); V v = m.v[r]; m.v[r2] = v; } else if (m.ty == FAC) { nx_data_frame_set_factor(df, r2, c, nx_data_frame_get_factor(df, r, c)); V v = m.v[r]; m.v[r2] = v; } }
      else if (op >= 18) compare(df, f);
    }
    compare(df, f);
    if (in.pick(3)) {
      bool plain = in.pick(4); S sep = plain ? "," : in.str(3, ";| ,"); char *b = nullptr; size_t n = 0; FILE *o = open_memstream(&b, &n);
      CHECK(plain ? nx_data_frame_save_csv_stream(df, o) : nx_data_frame_fprintf(df, o, sep.c_str()), "printing"); fclose(o); S got(b, n); free(b);
      CHECK(got == csv(f, sep), "printed\n%s\nwant\n%s", got.c_str(), csv(f, sep).c_str());
      if (plain && !got.empty()) read_back(got, in.coin());
      if (plain && in.pick(4) == 0) {          // the same by file name
        char nm[64]; snprintf(nm, sizeof nm, "/tmp/vf_p08_XXXXXX"); int fd = mkstemp(nm); CHECK(fd >= 0); close(fd); bool x = in.coin();
        bool d = FATAL_IN(if (x) nx_data_frame_xsave_csv(df, nm); else CHECK(nx_data_frame_save_csv(df, nm), "saving")); CHECK(!d, "saving by name");
        S g; FILE *i = fopen(nm, "r"); CHECK(i); int ch; while ((ch = getc(i)) != EOF) g += (char)ch; fclose(i); CHECK(g == got, "saved file differs");
        F w; if (!got.empty() && table(got, w)) { NXDataFrame *r = nullptr; d = FATAL_IN(r = x ? nx_data_frame_xload_csv(nm, NX_FALSE) : nx_data_frame_load_csv(nm, NX_FALSE)); if (d || !r) unlink(nm); CHECK(!d && r, "loading by name"); compare(r, w); nx_data_frame_free(r); }
        unlink(nm);
        CHECK(!nx_data_frame_save_csv(df, "/nonexistent/x.csv")); CHECK(!nx_data_frame_load_csv("/nonexistent/x.csv", NX_FALSE));
        CHECK(got.empty() || !nx_data_frame_save_csv(df, "/dev/full"), "a full device is reported");
        if (in.pick(4) == 0) { CHECK(FATAL_IN(nx_data_frame_xsave_csv(df, "/nonexistent/x.csv"))); CHECK(FATAL_IN(nx_data_frame_xload_csv("/nonexistent/x.csv", NX_FALSE))); nx_data_frame_free(df); return; }
      }
    }
    nx_data_frame_free(df);
  }
}
ENTRY { LiveBlocks lb; long f0 = g_fatal_count; run(data, size); if (g_fatal_count == f0) CHECK(lb.now() == 0, "%ld blocks left", lb.now()); return 0; }
