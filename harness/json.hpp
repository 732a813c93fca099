// an independent JSON scanner
#pragma once
#include "common.hpp"
typedef std::string S;
struct Tok { int ty; bool has; S text; bool operator==(const Tok &o) const { return ty == o.ty && has == o.has && text == o.text; } };
static int at(const S &t, size_t i) { return i < t.size() ? (unsigned char)t[i] : EOF; }
static void lc(const S &t, size_t p, int &l, int &c) { l = 1; c = 0; for (size_t i = 0; i <= p; ++i) { int x = at(t, i); if (x == '\n') { ++l; c = 0; } else if (x == '\r') c = 0; else if (x == '\t') c += 8; else ++c; } }
static bool isd(int c) { return c >= '0' && c <= '9'; }
// JSON number at p: -1 ill-formed, else its end; fp
static int number(const S &t, size_t p, bool &fp) {
  fp = false; size_t q = p; if (at(t, q) == '-') ++q; size_t d = q; while (isd(at(t, q))) ++q;
  if (q == d) return -1; if (q - d > 1 && t[d] == '0') return -1;
  if (at(t, q) == '.') { fp = true; ++q; d = q; while (isd(at(t, q))) ++q; if (q == d) return -1; }
  if (at(t, q) == 'e' || at(t, q) == 'E') { fp = true; ++q; if (at(t, q) == '+' || at(t, q) == '-') ++q; d = q; while (isd(at(t, q))) ++q; if (q == d) return -1; }
  return (int)q;
}
// JSON string whose opening quote is at p: -1 ill-formed, else position of the closing quote; decoded text
static int jstring(const S &t, size_t p, S &out) {
  out.clear();
  for (size_t q = p + 1;; ++q) { int c = at(t, q); if (c == EOF) return -1; if (c == '"') return (int)q; if (c != '\\') { out.push_back((char)c); continue; }
    switch (at(t, ++q)) { case '"': out += '"'; break; case '\\': out += '\\'; break; case '/': out += '/'; break; case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break; default: return -1; } }
}
static bool json_next(const S &t, size_t &p, Tok &k) {
  k = {0, false, ""};
  while (at(t, p) == ' ' || at(t, p) == '\t' || at(t, p) == '\n' || at(t, p) == '\r') ++p;
  int c = at(t, p); if (c == EOF) return true;
  const char *one = "[]{},:"; if (const char *x = strchr(one, c)) { k.ty = 1 + (int)(x - one); ++p; return true; }
  const char *w[] = {"true", "false", "null"}; for (int i = 0; i < 3; ++i) if (c == w[i][0]) { if (t.compare(p, strlen(w[i]), w[i])) return false; p += strlen(w[i]); k.ty = 7 + i; return true; }
  if (c == '"') { int q = jstring(t, p, k.text); if (q < 0) return false; k.ty = 12; k.has = true; p = q + 1; return true; }
  if (c == '-' || isd(c)) { bool fp; int q = number(t, p, fp); if (q < 0) return false; k = {fp ? 11 : 10, true, t.substr(p, q - p)}; p = q; return true; }
  return false;
}
