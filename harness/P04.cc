// P04 strings, text codecs and line reading against reference implementations
// MAXLEN: 300
#include "common.hpp"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_alloc.h"
struct Mem { char *b = nullptr; size_t n = 0; FILE *f; Mem() { f = open_memstream(&b, &n); } std::string done() { fclose(f); std::string s(b, n); free(b); return s; } };
static std::string enc_readable(const std::string &s) { std::string r = "\""; for (char c : s) switch (c) { case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break; case '\b': r += "\\b"; break; case '\f': r += "\\f"; break; case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; default: r += c; } return r + "\""; }
static bool dec_readable(const std::string &s, std::string &o) { for (size_t i = 0; i < s.size(); ++i) { if (s[i] != '\\') { o += s[i]; continue; } if (++i >= s.size()) return false; switch (s[i]) { case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': return true; /* not judged */ default: return false; } } return true; }
static bool dec_dq(const std::string &s, std::string &o) { for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '"') { if (++i >= s.size() || s[i] != '"') return false; } o += s[i]; } return true; }
static std::string exact(const std::string &s) { return s; }
static char *heap_copy(const std::string &s) { char *p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); return p; }  // no terminator: over-reads are seen
ENTRY {
  In in(data, size);
  LiveBlocks live;
  {
  const char *al = "ab\"\\\n\r\t\b\fntrf\"\\,/'x";
  switch (in.pick(10)) {
  case 0: { std::string s = in.str(80); char *c = nx_strdup(s.c_str()); CHECK(c != s.c_str() && s == c); char *d = nullptr; nx_strredup(&d, s.c_str()); CHECK(s == d); std::string t = in.str(40); nx_strredup(&d, t.c_str()); CHECK(t == d && s == c); nx_strredup(&d, nullptr); CHECK(!d); nx_free(c); break; }
  case 1: { std::string s = in.str(250); int k = (int)in.i32x(); std::string w = s + ":" + std::to_string(k) + "%"; char *r = nx_fstr("%s:%d%%", s.c_str(), k); CHECK(w == r, "%s", r); nx_free(r);
            int n = in.range(0, 400); char *q = nx_fstr("%*s", n, "x"); CHECK(strlen(q) == (size_t)(n ? n : 1)); nx_free(q); break; }
  case 2: { // store and load sequences
            int n = in.range(1, 4); std::vector<std::string> v; Mem m; for (int i = 0; i < n; ++i) { v.push_back(in.str(60)); CHECK(nx_strwrite(v[i].c_str(), m.f) == 0); } std::string b = m.done();
            size_t want = 0; for (auto &s : v) want += 8 + s.size(); CHECK(b.size() == want);
            size_t cut = in.coin() ? b.size() : in.pick(b.size() + 1); char *hb = heap_copy(b.substr(0, cut)); FILE *f = fmemopen(hb, cut ? cut : 1, "r"); if (!cut) fgetc(f);
            size_t at = 0; char *buf = nullptr; size_t cap = 0; bool reuse = in.coin();
            for (int i = 0; i < n; ++i) { bool whole = at + 8 + v[i].size() <= cut; at += 8 + v[i].size();
              if (reuse) { int rc = nx_strread(&buf, cap, f); CHECK((rc == 0) == whole); if (whole) { CHECK(v[i] == buf); if (v[i].size() + 1 > cap) cap = v[i].size() + 1; } }
              else { char *r = nx_strread0(f); CHECK((r != nullptr) == whole); if (r) { CHECK(v[i] == r); nx_free(r); } }
              if (!whole) break; }
            free(buf); fclose(f); free(hb); break; }
  case 3: { // any stream: no memory error, result is the stated prefix
            size_t l = in.coin() ? in.pick(40) : in.u64(); if (l > (1u << 20)) l = in.coin() ? SIZE_MAX : (1u << 20); std::string b((char *)&l, 8); b += in.str(40); char *hb = heap_copy(b); FILE *f = fmemopen(hb, b.size(), "r"); char *r = nx_strread0(f); bool whole = l <= b.size() - 8; CHECK((r != nullptr) == whole); if (r) CHECK(std::string(r) == std::string(b.substr(8, l).c_str())); free(r); fclose(f); free(hb); break; }
  case 4: { std::string s = in.str(60, al); Mem m; CHECK(nx_fputs_readable(s.c_str(), m.f) == 0); std::string b = m.done(); CHECK(b == enc_readable(s), "%s", b.c_str()); char *h = heap_copy(b.substr(1, b.size() - 2)); char *r = nx_xstr_from_readable(b.size() - 2, h); CHECK(s == r); nx_free(r); free(h); Mem z; nx_fputs_readable(nullptr, z.f); CHECK(z.done() == "null"); break; }
  case 5: { std::string s = in.str(60, al); Mem m; CHECK(nx_fputs_double_quoted(s.c_str(), m.f) == 0); std::string b = m.done(); std::string w = "\""; for (char c : s) { if (c == '"') w += '"'; w += c; } w += '"'; CHECK(b == w); char *h = heap_copy(b.substr(1, b.size() - 2)); char *r = nx_xstr_from_double_quoted(b.size() - 2, h); CHECK(s == r); nx_free(r); free(h); Mem z; CHECK(nx_fputs_double_quoted(nullptr, z.f) == 0); CHECK(z.done() == ""); break; }
  case 6: { std::string s = in.str(60, al), o; bool dq = in.coin(); bool ok = dq ? dec_dq(s, o) : dec_readable(s, o); if (!dq && s.find("\\/") != std::string::npos) break; char *h = heap_copy(s); char *volatile r = nullptr; bool died = FATAL_IN(r = dq ? nx_xstr_from_double_quoted(s.size(), h) : nx_xstr_from_readable(s.size(), h)); CHECK(died == !ok, "%s", s.c_str()); free(h); if (!died) { CHECK(o == (char *)r); nx_free(r); } else live.v0 = g_live; CHECK(!nx_xstr_from_readable(3, nullptr) && !nx_xstr_from_double_quoted(3, nullptr)); break; }
  case 7: { int n = in.range(0, 40); std::vector<uint8_t> h(n); std::string w; char t[3]; for (auto &x : h) { x = in.u8(); snprintf(t, 3, "%02x", x); w += t; } uint8_t *hp = (uint8_t *)malloc(n ? n : 1); memcpy(hp, h.data(), n); char *s = nx_hash_to_str(n, hp); CHECK(w == s); nx_free(s); free(hp); break; }
  case 8: { std::string s; while (in.more() && s.size() < 200) { uint8_t c = in.u8(); if ((c & 7) == 1) c = '\n'; if ((c & 7) == 2) { s += std::string(c >> 3, 'k'); } s += (char)c; } char *hb = heap_copy(s); FILE *f = fmemopen(hb, s.size() ? s.size() : 1, "r"); if (s.empty()) fgetc(f); char *line = nullptr; size_t n = 0; if (in.coin()) { n = 3; line = (char *)malloc(n); } size_t at = 0;
            while (true) { ssize_t r = nx_getline(&line, &n, f); if (at >= s.size()) { CHECK(r == -1, "%zd at end of file", r); break; } size_t e = s.find('\n', at); std::string w = e == std::string::npos ? s.substr(at) : s.substr(at, e + 1 - at); CHECK(r == (ssize_t)w.size() && n > (size_t)r); CHECK(memcmp(line, w.data(), r) == 0 && line[r] == 0); at += w.size(); }
            free(line); fclose(f); free(hb); break; }
  case 9: { // failing stream: the error is reported
            std::string s = in.str(30, al); std::string e = in.coin() ? enc_readable(s) : ""; bool rd = !e.empty(); if (!rd) { e = "\""; for (char c : s) { if (c == '"') e += '"'; e += c; } e += '"'; } size_t cap = in.pick(e.size() + 3); char *b = (char *)malloc(cap + 1); FILE *f = fmemopen(b, cap + 1, "w"); setvbuf(f, nullptr, _IONBF, 0); int rc = rd ? nx_fputs_readable(s.c_str(), f) : nx_fputs_double_quoted(s.c_str(), f); if (rc == 0) CHECK(cap + 1 >= e.size()); fclose(f); free(b); break; }
  }
  }
  CHECK(live.now() <= 0, "%ld blocks leaked", live.now());
  return 0;
}
