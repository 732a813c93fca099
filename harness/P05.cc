// P05 string arrays as histories of operations against a reference model; stored form
// MAXLEN: 400
#include "common.hpp"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_alloc.h"
typedef std::vector<std::pair<bool, std::string>> V;   // (set?, text)
static void same(NXStringArray *a, const V &v) {
  CHECK(nx_string_array_size(a) == (int)v.size(), "size %d want %zu", nx_string_array_size(a), v.size());
  char **p = nx_string_array_ptr(a);
  for (size_t i = 0; i < v.size(); ++i) { char *g = nx_string_array_get(a, (int)i); CHECK(g == p[i]); if (!v[i].first) CHECK(!g); else CHECK(g && v[i].second == g, "element %zu", i); }
}
static std::string stored(NXStringArray *a, int *rc) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); *rc = nx_string_array_write(a, f); fclose(f); std::string s(b, n); free(b); return s; }
ENTRY {
  In in(data, size);
  LiveBlocks live;
  {
  V v; NXStringArray *a;
  switch (in.pick(3)) { case 0: a = nx_string_array_alloc(); break; case 1: { int n = in.range(0, 12); a = nx_string_array_new(n); v.resize(n); break; }
  default: { std::vector<std::string> l(in.pick(6)); std::vector<char *> p; for (auto &s : l) s = in.str(5); for (auto &s : l) { p.push_back(&s[0]); v.push_back({true, s}); } p.push_back(nullptr); a = nx_string_array_new_from_null_terminated_list(p.data()); for (size_t i = 0; i < l.size(); ++i) CHECK(nx_string_array_get(a, (int)i) != l[i].c_str()); } }
  same(a, v);
  for (int ops = in.range(0, 30); ops > 0; --ops) {
    switch (in.pick(9)) {
    case 0: { int n = in.range(0, 40); nx_string_array_resize(a, n); v.resize(n); break; }
    case 1: if (!v.empty()) { int i = in.pick(v.size()); std::string s = in.str(8); nx_string_array_set(a, i, s.c_str()); v[i] = {true, s}; } break;
    case 2: if (!v.empty()) { int i = in.pick(v.size()); nx_string_array_set(a, i, nullptr); v[i] = {false, ""}; } break;
    case 3: { std::string s = in.str(8); int k = nx_string_array_append(a, s.c_str()); CHECK(k == (int)v.size()); v.push_back({true, s}); break; }
    case 4: { std::string s = in.str(90); int x = (int)in.i32x(); int k = nx_string_array_appendf(a, "%d/%s", x, s.c_str()); CHECK(k == (int)v.size()); v.push_back({true, std::to_string(x) + "/" + s}); break; }
    case 5: if (!v.empty()) { int i = in.pick(v.size()); std::string s = in.str(90); nx_string_array_setf(a, i, "<%s>", s.c_str()); v[i] = {true, "<" + s + ">"}; } break;
    case 6: { std::string s = in.coin() || v.empty() ? in.str(3) : v[in.pick(v.size())].second; int w = -1; for (size_t i = 0; i < v.size() && w < 0; ++i) if (v[i].first && v[i].second == s) w = (int)i; CHECK(nx_string_array_find(a, s.c_str()) == w); break; }
    case 7: { bool all = true; for (auto &x : v) all = all && x.first; if (!all) break; int rc; std::string b = stored(a, &rc); CHECK(rc == 0);
              size_t want = 4; for (auto &x : v) want += 8 + x.second.size(); CHECK(b.size() == want);
              size_t cut = in.coin() ? b.size() : in.pick(b.size() + 1); char *hb = (char *)malloc(cut + 1); memcpy(hb, b.data(), cut); FILE *f = fmemopen(hb, cut ? cut : 1, "r"); if (!cut) fgetc(f);
              if (in.coin()) { NXStringArray *r = nx_string_array_read0(f); CHECK((r != nullptr) == (cut == b.size())); if (r) same(r, v); nx_string_array_free(r); }
              else { NXStringArray *r = nx_string_array_new(in.range(0, 6)); for (int i = 0; i < nx_string_array_size(r); ++i) if (in.coin()) nx_string_array_set(r, i, "old"); int c = nx_string_array_read(r, f); CHECK((c == 0) == (cut == b.size())); if (c == 0) same(r, v); nx_string_array_free(r); }
              fclose(f); free(hb); break; }
    case 8: { int n = in.coin() ? -in.range(1, 5) : in.range(0, 5); std::string b((char *)&n, 4); b += in.str(n < 0 ? 20 : 7); FILE *f = fmemopen(&b[0], b.size(), "r"); NXStringArray *r = nx_string_array_alloc(); int c = nx_string_array_read(r, f); CHECK((c == 0) == (n == 0)); nx_string_array_free(r); fclose(f); break; }
    }
    same(a, v);
  }
  nx_string_array_free(a); nx_string_array_free(nullptr);
  }
  CHECK(live.now() <= 0, "%ld blocks leaked", live.now());
  return 0;
}
