// P07 JSON: parsing against an independent parser, printing and reading back, access, building, bundling, log streams
// MAXLEN: 300
#include "json.hpp"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_json_log.h"
#include "virg/nexus/nx_alloc.h"
extern "C" { NXJSONNode *nx_json_log_get_stream(int); void nx_json_log_free(); void nx_json_log_clear_stream(int); }
enum { OBJ = 1, ARR = 2, STR = 4, INT = 8, FPN = 16, TRU = 32, FAL = 64, NUL = 128 };
struct J { int ty; S text; std::vector<J> kids; bool operator==(const J &o) const { return ty == o.ty && text == o.text && kids == o.kids; } };
struct Parser { const S &t; size_t p; Tok k; bool ok; Parser(const S &s) : t(s), p(0), ok(true) { next(); }
  void next() { if (ok && !json_next(t, p, k)) ok = false; }
  bool expect(int ty) { if (!ok || k.ty != ty) return ok = false; next(); return ok; }
  // consumes the token after the value, as the library does
  bool value(J &v, int depth) { if (!ok || depth > 40) return ok = false; v = {0, "", {}};
    switch (k.ty) { case 12: v.ty = STR; v.text = k.text; next(); return ok; case 10: v.ty = INT; v.text = k.text; next(); return ok; case 11: v.ty = FPN; v.text = k.text; next(); return ok;
    case 7: v.ty = TRU; next(); return ok; case 8: v.ty = FAL; next(); return ok; case 9: v.ty = NUL; next(); return ok;
    case 1: v.ty = ARR; next(); if (!ok) return false; if (k.ty == 2) { next(); return ok; } for (;;) { J c; if (!value(c, depth + 1)) return false; v.kids.push_back(c); if (k.ty == 5) { next(); if (!ok) return false; continue; } return expect(2); }
    case 3: v.ty = OBJ; next(); if (!ok) return false; if (k.ty == 4) { next(); return ok; } for (;;) { if (k.ty != 12) return ok = false; v.kids.push_back({STR, k.text, {}}); next(); if (!expect(6)) return false; J c; if (!value(c, depth + 1)) return false; v.kids.push_back(c); if (k.ty == 5) { next(); if (!ok) return false; continue; } return expect(4); }
    default: return ok = false; } } };
static bool parse(const S &t, J &v) { Parser p(t); if (!p.ok || (p.k.ty != 1 && p.k.ty != 3)) return false; return p.value(v, 0); }
static J scalar(In &in) { static const char *I[] = {"0", "-1", "12", "2147483647"}, *F[] = {"1.5", "-0e3", "2E-2", "0.25e+1"}; switch (in.pick(6)) { case 0: return {STR, in.str(5, "ab\"\\/\n\t \b\f\rx{[,:"), {}}; case 1: return {INT, I[in.pick(4)], {}}; case 2: return {FPN, F[in.pick(4)], {}}; case 3: return {TRU, "", {}}; case 4: return {FAL, "", {}}; default: return {NUL, "", {}}; } }
static J gen(In &in, int depth) { if (depth > 3 || (depth && in.pick(3) == 0)) return scalar(in); J v; v.ty = in.coin() ? OBJ : ARR; for (int n = in.range(0, 4); n > 0; --n) { if (v.ty == OBJ) v.kids.push_back({STR, in.pick(3) ? S(1, 'a' + in.pick(3)) : in.str(3, "\"\\k"), {}}); v.kids.push_back(gen(in, depth + 1)); } return v; }
static void ws(In &in, S &o) { while (in.more() && in.pick(5) == 0) o += " \n\t\r"[in.pick(4)]; }
static void quote(In &in, const S &s, S &o) { o += '"'; for (char c : s) switch (c) { case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '/': o += in.coin() ? "\\/" : "/"; break; case '\n': o += in.coin() ? "\\n" : "\n"; break; case '\t': o += "\\t"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\r': o += "\\r"; break; default: o += c; } o += '"'; }
static void text(In &in, const J &v, S &o) { ws(in, o); switch (v.ty) { case STR: quote(in, v.text, o); break; case INT: case FPN: o += v.text; break; case TRU: o += "true"; break; case FAL: o += "false"; break; case NUL: o += "null"; break;
  case ARR: o += '['; for (size_t i = 0; i < v.kids.size(); ++i) { if (i) o += ','; text(in, v.kids[i], o); } ws(in, o); o += ']'; break;
  default: o += '{'; for (size_t i = 0; i < v.kids.size(); i += 2) { if (i) o += ','; ws(in, o); quote(in, v.kids[i].text, o); ws(in, o); o += ':'; text(in, v.kids[i + 1], o); } ws(in, o); o += '}'; } ws(in, o); }
// the tree holds exactly v; access agrees
static void same(NXJSONNode *n, const J &v, In &in) {
  CHECK(n); CHECK(nx_json_node_type(n) == v.ty, "type %d want %d", nx_json_node_type(n), v.ty);
  for (int m = 1; m < 256; m = m * 2 + (in.coin() ? 1 : 0)) { CHECK(!!nx_json_node_is(n, m) == (v.ty == m)); CHECK(!!nx_json_node_is_a(n, m) == ((v.ty & m) != 0)); }
  char *t = nx_json_node_text(n); bool has = v.ty == STR || v.ty == INT || v.ty == FPN; CHECK((t != nullptr) == has); if (has) CHECK(v.text == t, "text '%s' want '%s'", t, v.text.c_str());
  CHECK(nx_json_node_n_children(n) == (int)v.kids.size(), "children %d want %zu", nx_json_node_n_children(n), v.kids.size());
  int mask = in.pick(256);
  if (v.ty == ARR) { CHECK(!nx_json_object_get(n, "a", 255)); for (size_t i = 0; i < v.kids.size(); ++i) { NXJSONNode *c = nx_json_array_get(n, (int)i, 255); same(c, v.kids[i], in); CHECK(nx_json_array_get(n, (int)i, mask) == ((v.kids[i].ty & mask) ? c : nullptr)); CHECK(nx_json_array_fget(n, (int)i, v.kids[i].ty) == c); } CHECK(!nx_json_array_get(n, (int)v.kids.size(), 255)); CHECK(!nx_json_array_get(n, (int)v.kids.size() + 3, 255)); CHECK(FATAL_IN(nx_json_array_fget(n, (int)v.kids.size(), 255))); }
  else if (v.ty == OBJ) { CHECK(!nx_json_array_get(n, 0, 255)); std::set<S> seen;
    for (size_t i = 0; i < v.kids.size(); i += 2) if (seen.insert(v.kids[i].text).second) { NXJSONNode *c = nx_json_object_get(n, v.kids[i].text.c_str(), 255); same(c, v.kids[i + 1], in); CHECK(nx_json_object_get(n, v.kids[i].text.c_str(), mask) == ((v.kids[i + 1].ty & mask) ? c : nullptr)); CHECK(nx_json_object_fget(n, v.kids[i].text.c_str(), v.kids[i + 1].ty) == c); }
    for (const char *k : {"a", "b", "c", "zz", ""}) if (!seen.count(k)) { CHECK(!nx_json_object_get(n, k, 255)); CHECK(FATAL_IN(nx_json_object_fget(n, k, 255))); } }
  else { CHECK(!nx_json_array_get(n, 0, 255)); CHECK(!nx_json_object_get(n, "a", 255)); }
}
static S print(NXJSONNode *n, int level) { char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); nx_json_tree_fprint(f, n, level); fclose(f); S s(b, z); free(b); return s; }
static NXJSONNode *build(const J &v) { switch (v.ty) { case STR: return nx_json_node_new_string(v.text.c_str()); case INT: return nx_json_node_new_integer(v.text.c_str()); case FPN: return nx_json_node_new_fpnumber(v.text.c_str()); case TRU: return nx_json_node_new_true(); case FAL: return nx_json_node_new_false(); case NUL: return nx_json_node_new_null();
  case ARR: { NXJSONNode *a = nx_json_node_new_array(); for (auto &k : v.kids) { NXJSONNode *c = build(k); CHECK(nx_json_array_add(a, c) == c); } return a; }
  default: { NXJSONNode *o = nx_json_node_new_object(); for (size_t i = 0; i < v.kids.size(); i += 2) { NXJSONNode *c = build(v.kids[i + 1]); CHECK(nx_json_object_add(o, v.kids[i].text.c_str(), c) == c); } return o; } } }
static NXJSONNode *through(NXJSONNode *n, bool text) { if (!text) return n; J a; NXJSONNode *arr = nx_json_node_new_array(); nx_json_array_add(arr, n); S s = print(arr, 1); nx_json_tree_free(arr); std::vector<char> b(s.c_str(), s.c_str() + s.size() + 1); return nx_json_tree_from_string(b.data()); }
ENTRY {
  In in(data, size);
  LiveBlocks live; bool died = false;
  switch (in.pick(4)) {
  case 0: case 1: {
    J v = gen(in, 0); S t; text(in, v, t);
    bool mutate = in.coin(); if (mutate) for (int k = in.range(1, 3); k > 0 && !t.empty(); --k) { size_t i = in.u16() % t.size(); switch (in.pick(3)) { case 0: t.erase(i, 1); break; case 1: t.insert(i, 1, "[]{},:\"\\tfn0-e. x"[in.pick(17)]); break; default: t[i] = "[]{},:\"\\tfn0-e. x"[in.pick(17)]; } }
    J w; bool ok = parse(t, w); if (!mutate) CHECK(ok && w == v, "harness parser");
    std::vector<char> b(t.c_str(), t.c_str() + t.size() + 1); NXJSONNode *n = nullptr; bool d;
    if (in.coin() && !t.empty()) { FILE *f = fmemopen(b.data(), t.size(), "r"); d = FATAL_IN(n = nx_json_tree_from_stream(f)); fclose(f); } else d = FATAL_IN(n = nx_json_tree_from_string(b.data()));
    CHECK(d == !ok, "%s: '%s'", ok ? "well-formed text refused" : "ill-formed text accepted", t.c_str());
    if (d) { died = true; break; }
    CHECK(!memcmp(b.data(), t.c_str(), t.size() + 1), "text changed");
    same(n, w, in);
    J r; S s = print(n, in.range(-1, 4)); CHECK(parse(s, r) && r == w, "printed text reads back differently: %s", s.c_str()); CHECK(s.back() == '\n');
    nx_json_tree_free(n); break; }
  case 2: { J v = gen(in, 0); NXJSONNode *n = build(v); same(n, v, in); J r; S s = print(n, in.range(0, 3)); CHECK(parse(s, r) && r == v, "built tree reads back differently"); 
    NXJSONNode *more = build(scalar(in)); if (v.ty == ARR) { nx_json_array_add(n, more); CHECK(nx_json_array_get(n, (int)v.kids.size(), 255) == more); } else nx_json_tree_free(more);
    nx_json_tree_free(n); nx_json_tree_free(nullptr); break; }
  default: {
    bool tx = in.coin(); int n = in.range(0, 5), m;
    auto first = [&](NXJSONNode *x) { return tx ? nx_json_array_fget(x, 0, 255) : x; };
    switch (in.pick(8)) {
    case 0: { bool x = in.coin(); NXJSONNode *j = through(nx_json_bundle_bool(x), tx); CHECK(!!nx_json_unbundle_bool(first(j)) == x); nx_json_tree_free(j); char c = (char)(in.u8() | 1); j = through(nx_json_bundle_char(c), tx); CHECK(nx_json_unbundle_char(first(j)) == c); nx_json_tree_free(j); uchar u = in.u8(); j = through(nx_json_bundle_uchar(u), tx); CHECK(nx_json_unbundle_uchar(first(j)) == u); nx_json_tree_free(j); j = nx_json_bundle_int((int)in.i32x()); int full = nx_json_unbundle_int(j); CHECK(nx_json_unbundle_uchar(j) == (full < 0 ? 0 : full > 255 ? 255 : full)); nx_json_tree_free(j); break; }
    case 1: { int x = (int)in.i32x(); NXJSONNode *j = through(nx_json_bundle_int(x), tx); CHECK(nx_json_unbundle_int(first(j)) == x); nx_json_tree_free(j); size_t z = in.coin() ? in.u64() : in.i32x(); j = through(nx_json_bundle_size_t(z), tx); CHECK(nx_json_unbundle_size_t(first(j)) == z); nx_json_tree_free(j); break; }
    case 2: { double x = in.f64(); NXJSONNode *j = through(nx_json_bundle_double(x), tx); CHECK(near_(nx_json_unbundle_double(first(j)), x, 2e-6, 1e-300)); nx_json_tree_free(j); float f = in.f32(); j = through(nx_json_bundle_float(f), tx); CHECK(near_(nx_json_unbundle_float(first(j)), f, 2e-6, 1e-30)); nx_json_tree_free(j); break; }
    case 3: { S x = in.str(8); NXJSONNode *j = through(nx_json_bundle_string(x.c_str()), tx); char *r = nx_json_unbundle_string(first(j)); CHECK(x == r && r != nx_json_node_text(first(j))); nx_free(r); nx_json_tree_free(j); break; }
    case 4: { std::vector<int> x(n + 1); for (auto &y : x) y = (int)in.i32x(); NXJSONNode *j = through(nx_json_bundle_int_array(n, x.data()), tx); int *r = nx_json_unbundle_int_array(first(j), &m); CHECK(m == n); for (int i = 0; i < n; ++i) CHECK(r[i] == x[i]); nx_free(r); nx_json_tree_free(j); break; }
    case 5: { std::vector<double> x(n + 1); std::vector<float> y(n + 1); for (int i = 0; i < n; ++i) { x[i] = in.f64(); y[i] = in.f32(); } NXJSONNode *j = through(nx_json_bundle_double_array(n, x.data()), tx); double *r = nx_json_unbundle_double_array(first(j), &m); CHECK(m == n); for (int i = 0; i < n; ++i) CHECK(near_(r[i], x[i], 2e-6, 1e-300)); nx_free(r); nx_json_tree_free(j);
              j = through(nx_json_bundle_float_array(n, y.data()), tx); float *q = nx_json_unbundle_float_array(first(j), &m); CHECK(m == n); for (int i = 0; i < n; ++i) CHECK(near_(q[i], y[i], 2e-6, 1e-30)); nx_free(q); nx_json_tree_free(j); break; }
    case 6: { std::vector<S> x(n); std::vector<char *> p; for (auto &y : x) y = in.str(5); for (auto &y : x) p.push_back(&y[0]); p.push_back(nullptr); NXJSONNode *j = through(nx_json_bundle_string_array(n, p.data()), tx); char **r = nx_json_unbundle_string_array(first(j), &m); CHECK(m == n); for (int i = 0; i < n; ++i) { CHECK(x[i] == r[i]); nx_free(r[i]); } nx_free(r); NXStringArray *sa = nx_json_unbundle_as_string_array(first(j)); CHECK(nx_string_array_size(sa) == n); for (int i = 0; i < n; ++i) CHECK(x[i] == nx_string_array_get(sa, i)); nx_string_array_free(sa); nx_json_tree_free(j); break; }
    default: { std::vector<NXKeypoint> k(n + 1); for (auto &q : k) { memset(&q, 0, sizeof q); q.x = (int)in.i32x(); q.y = (int)in.i32x(); q.xs = in.f32(); q.ys = in.f32(); q.level = (int)in.u8(); q.scale = in.f32(); q.sigma = in.f32(); q.score = in.f32(); q.ori = in.f32(); q.id = in.coin() ? in.u64() : in.u8(); } NXJSONNode *j = through(nx_json_bundle_keypoint_array(n, k.data()), tx); NXKeypoint *r = nx_json_unbundle_keypoint_array(first(j), &m); CHECK(m == n);
      for (int i = 0; i < n; ++i) { auto &a = k[i]; auto &b = r[i]; CHECK(a.x == b.x && a.y == b.y && a.level == b.level && a.id == b.id, "keypoint"); auto c = [&](float u, float w) { CHECK(near_(u, w, 2e-6, 1e-30), "keypoint %g %g", u, w); }; c(a.xs, b.xs); c(a.ys, b.ys); c(a.scale, b.scale); c(a.sigma, b.sigma); c(a.score, b.score); c(a.ori, b.ori); } nx_free(r); nx_json_tree_free(j); break; }
    }
    if (in.pick(4) == 0) { int id = in.range(-2, 33); NXJSONNode *s = nullptr; bool d = FATAL_IN(s = nx_json_log_get_stream(id)); CHECK(d == (id < 0 || id >= 32), "stream id %d", id); if (!d) { CHECK(nx_json_node_is(s, OBJ) && nx_json_node_n_children(s) == 0); int o = (id + 1) % 32; NXJSONNode *s2 = nx_json_log_get_stream(o); CHECK(s2 != s); nx_json_object_add(s, "k", nx_json_bundle_int(7)); CHECK(nx_json_log_get_stream(id) == s && nx_json_node_n_children(s2) == 0); nx_json_log_clear_stream(o); CHECK(nx_json_object_get(nx_json_log_get_stream(id), "k", 255)); nx_json_log_clear_stream(id); CHECK(nx_json_node_n_children(nx_json_log_get_stream(id)) == 0); } nx_json_log_free(); nx_json_log_free(); if (!d) nx_json_log_clear_stream(id); }
    break; }
  }
  if (!died) CHECK(live.now() <= 0, "%ld blocks leaked", live.now());
  return 0;
}
