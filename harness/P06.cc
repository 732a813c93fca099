// P06 lexers: position, line and column; words; JSON numbers and strings; CSV and JSON token streams against independent scanners
// MAXLEN: 240
#include "json.hpp"
#include "virg/nexus/nx_lexer.h"
#include "virg/nexus/nx_csv_lexer.h"
#include "virg/nexus/nx_json_lexer.h"
#include "virg/nexus/nx_alloc.h"
static bool csv_next(const S &t, size_t &p, Tok &k) {
  int c = at(t, p); k = {0, false, ""};
  if (c == EOF) return true;
  if (c == '\n') { ++p; k.ty = 1; return true; }
  if (c == ',') { ++p; k.ty = 2; return true; }
  k.has = true;
  if (c == '"') { k.ty = 4; for (size_t q = p + 1;; ++q) { if (at(t, q) == EOF) return false; if (t[q] == '"') { if (at(t, q + 1) == '"') { k.text += '"'; ++q; continue; } p = q + 1; return true; } k.text += t[q]; } }
  k.ty = 3; size_t q = p; while (at(t, q) != EOF && t[q] != '\n' && t[q] != ',') { if (t[q] == '"') return false; ++q; }
  k.text = t.substr(p, q - p); p = q; return true;
}
template <class TK> static Tok tok(const TK &t) { return {(int)t.type, t.text != nullptr, t.text ? t.text : ""}; }
static S gen(In &in, const char *const *parts, int n, int maxn) { S s; for (int i = in.range(0, maxn); i > 0; --i) { int k = in.pick(n + 2); if (k < n) s += parts[k]; else { uint8_t c = in.u8(); s.push_back(c ? (char)c : '\xff'); } } return s; }
ENTRY {
  In in(data, size);
  LiveBlocks live; bool died = false;
  static const char *const JP[] = {"{", "}", "[", "]", ",", ":", "true", "false", "null", "\"", "\\", "\"a\"", "\"\\n\\/\\\"x\"", "0", "-", "12", "-0", "01", "1.5", ".", "e", "E+3", "e-", " ", "\n", "\t", "\r", "t", "u", "abc", "\\u", "/"};
  static const char *const CP[] = {",", "\n", "\"", "\"\"", "abc", " ", "1", "\"x,y\n\"", "\r", "\t", "\"a\"\"b\"", "\"\""};
  switch (in.pick(3)) {
  case 0: {
    S t = gen(in, JP, 32, 12); std::vector<char> buf(t.c_str(), t.c_str() + t.size() + 1);
    NXLexer *x = nx_lexer_new(buf.data()); size_t p = 0;
    CHECK(nx_lexer_text(x) == buf.data());
    for (int ops = in.range(1, 20); ops > 0 && !died; --ops) {
      switch (in.pick(5)) {
      default: { int c = nx_lexer_consume(x); if (p < t.size()) ++p; CHECK(c == at(t, p)); break; }
      case 2: { S w = in.coin() ? t.substr(p, in.pick(6)) : S(JP[in.pick(32)]); if (in.pick(4) == 0 && !w.empty()) w.back() ^= 1; if (w.find('\0') != S::npos) break; bool ok = t.compare(p, w.size(), w) == 0 && p + w.size() <= t.size(); NXBool r = nx_lexer_match(x, w.c_str()); CHECK(!!r == ok, "match at %zu", p); if (ok) p += w.size(); break; }
      case 3: { if (at(t, p) != '-' && !isd(at(t, p))) break; bool fp; int q = number(t, p, fp); int len; NXLexerNumberType ty; const char *r = nullptr; bool d = FATAL_IN(r = nx_lexer_NUMBER(x, &len, &ty)); CHECK(d == (q < 0), "number"); died = d; if (!d) { CHECK(r == buf.data() + p && len == q - (int)p && ty == (fp ? NX_LNT_FLOATING_POINT : NX_LNT_INTEGER)); p = q; } break; }
      case 4: { if (at(t, p) != '"') break; S o; int q = jstring(t, p, o); int len; const char *r = nullptr; bool d = FATAL_IN(r = nx_lexer_QUOTED_STRING(x, &len)); CHECK(d == (q < 0), "string"); died = d; if (!d) { CHECK(r == buf.data() + p + 1 && len == q - (int)p - 1); p = q + 1; } break; }
      }
      if (died) break;
      int l, c; lc(t, p, l, c);
      CHECK(nx_lexer_position(x) == (int)p && nx_lexer_current_char(x) == at(t, p), "position"); CHECK(nx_lexer_line_no(x) == l && nx_lexer_column_no(x) == c, "line/column %d %d want %d %d", nx_lexer_line_no(x), nx_lexer_column_no(x), l, c);
    }
    CHECK(!memcmp(buf.data(), t.c_str(), t.size() + 1)); nx_lexer_free(x); nx_lexer_free(nullptr); break; }
  case 1: {
    S t = gen(in, CP, 12, 16); std::vector<char> buf(t.c_str(), t.c_str() + t.size() + 1); size_t p = 0;
    NXCSVLexer *x = nx_csv_lexer_new(buf.data()); NXCSVToken k; k.type = NX_CTT_INVALID; k.text = nullptr;
    for (int eofs = 0; eofs < 2;) { Tok w; bool ok = csv_next(t, p, w); bool d = FATAL_IN(nx_csv_lexer_next_token(x, &k)); CHECK(d == !ok, "CSV error"); if (d) { died = true; break; } CHECK(tok(k) == w, "CSV token %d '%s' want %d '%s'", k.type, k.text ? k.text : "", w.ty, w.text.c_str());
      char *s = nx_csv_token_to_string(&k); static const char *N[] = {"EOF", "EOR", ",", "FIELD", "QFIELD"}; S ws = S("<") + N[w.ty] + (w.has ? ":'" + w.text + "'" : "") + ">"; CHECK(ws == s, "%s want %s", s, ws.c_str()); nx_free(s);
      if (w.ty == 0) ++eofs; }
    if (!died) CHECK(!memcmp(buf.data(), t.c_str(), t.size() + 1));
    nx_csv_token_free_data(&k); nx_csv_lexer_free(x); nx_csv_lexer_free(nullptr); break; }
  default: {
    S t = gen(in, JP, 32, 14); std::vector<char> buf(t.c_str(), t.c_str() + t.size() + 1); size_t p = 0;
    NXJSONLexer *x = nx_json_lexer_new(buf.data()); NXJSONToken k; k.type = NX_JTT_INVALID; k.text = nullptr;
    for (int eofs = 0; eofs < 2;) { Tok w; bool ok = json_next(t, p, w); bool d = FATAL_IN(nx_json_lexer_next_token(x, &k)); CHECK(d == !ok, "JSON error"); if (d) { died = true; break; } CHECK(tok(k) == w, "JSON token %d '%s' want %d '%s'", k.type, k.text ? k.text : "", w.ty, w.text.c_str());
      char *s = nx_json_token_to_string(&k); static const char *N[] = {"EOF", "[", "]", "{", "}", ",", ":", "true", "false", "null", "INTEGER", "FPNUM", "STRING"}; S ws = S("<") + N[w.ty] + (w.has ? ":'" + w.text + "'" : "") + ">"; CHECK(ws == s, "%s want %s", s, ws.c_str()); nx_free(s);
      if (w.ty == 0) ++eofs; }
    nx_json_token_free_data(&k); nx_json_lexer_free(x); nx_json_lexer_free(nullptr); break; }
  }
  if (!died) CHECK(live.now() <= 0, "%ld blocks leaked", live.now());
  return 0;
}
