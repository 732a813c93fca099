// P09 command-line options against a reference model: declarations, argument lists, repeated parsing, queries, printing
// MAXLEN: 500
// LIBS: -Wl,--wrap=exit
#include "common.hpp"
#include "virg/nexus/nx_options.h"
extern "C" { __attribute__((noreturn)) void __real_exit(int);
__attribute__((noreturn)) void __wrap_exit(int rc) { if (g_fatal_armed) { if (rc == 0) FAIL("exit with success"); longjmp(g_fatal_jmp, 2); } __real_exit(rc); } }
struct O { char t; bool req; std::string sn, ln, help; bool b; int i; double d; bool sset; std::string s; bool set; bool vb; int vi; double vd; bool vsset; std::string vs; };
static std::string join(const O &o) { return o.ln.empty() ? o.sn : o.sn.empty() ? o.ln : o.ln + ", " + o.sn; }
static std::string pad(size_t w, const std::string &s) { return s.size() < w ? std::string(w - s.size(), ' ') + s : s; }
static std::string val(char t, bool b, int i, double d, bool sset, const std::string &s) {
  if (t == 'b') return b ? "true" : "false"; if (t == 'i') return std::to_string(i);
  if (t == 'd') { char x[400]; snprintf(x, sizeof x, "%f", d); return x; }
  if (t == 's') return "'" + (sset ? s : std::string("(null)")) + "'"; return ""; }
static std::string nm(In &in) {
  static const char *pool[] = {"-a", "-b", "-c", "-h", "--alpha", "--beta", "--gamma", "--help", "--ab", "--a", "--a-rather-long-option-name", "---", "--Aa", "--BB", "--AaAa", "--BBBB", "--AaBB", "--width", "--height"};
  unsigned k = in.pick(26); if (k < 19) return pool[k];
  std::string s = "-"; if (k < 22) { char c = (char)(1 + in.u8() % 255); if (c == '|') c = 'x'; return s + c; }
  s += "-" + in.str(30); if (s.size() == 2) s += "z"; for (auto &c : s) if (c == '|') c = '_'; return s; }
static const O *find(const std::vector<O> &v, const std::string &n) { for (auto &o : v) if (o.sn == n || o.ln == n) return n.empty() ? nullptr : &o; return nullptr; }
ENTRY {
  In in(data, size); LiveBlocks live; bool died = false;
  {
  std::vector<O> v; bool rest = false, rreq = false; std::string rname, prog; bool hasprog = false; std::vector<std::string> rv; bool rvset = false; bool rset = false;
  std::string hd, ft; bool hhd = false, hft = false;
  NXOptions *op = in.coin() ? nx_options_alloc() : nx_options_new(nullptr);
  static const char *nasty[] = {"", "a", "-", "alpha", "-ab", "-abc", "--ok|", "|--ok", "-a|b", "-x|-yz", "x|--y", "-a|--b|c"};
  auto check = [&]() {
    for (auto &o : v) for (int w = 0; w < 2; ++w) { const std::string &n = w ? o.ln : o.sn; if (n.empty()) continue;
      CHECK((nx_options_is_set(op, n.c_str()) != 0) == o.set, "is_set %s", n.c_str());
      for (char q : {'b', 'i', 'd', 's'}) { bool f = FATAL_IN(
          if (q == 'b') CHECK((nx_options_get_bool(op, n.c_str()) != 0) == o.vb, "%s", n.c_str());
          if (q == 'i') CHECK(nx_options_get_int(op, n.c_str()) == o.vi, "%s", n.c_str());
          if (q == 'd') { double g = nx_options_get_double(op, n.c_str()); CHECK(g == o.vd || (g != g && o.vd != o.vd), "%s", n.c_str()); }
          if (q == 's') { const char *g = nx_options_get_string(op, n.c_str()); CHECK((g != nullptr) == o.vsset, "%s", n.c_str()); if (g) CHECK(o.vs == g, "%s", n.c_str()); });
        CHECK(f == (o.t != q), "query %c of %s", q, n.c_str()); } }
    for (const char *n : {"-q", "--no-such-option", "", "alpha", "--AaB", "--AaBBC"}) if (!find(v, n)) { CHECK(FATAL_IN(nx_options_is_set(op, n))); CHECK(FATAL_IN(nx_options_get_bool(op, n))); CHECK(FATAL_IN(nx_options_get_int(op, n))); CHECK(FATAL_IN(nx_options_get_double(op, n))); CHECK(FATAL_IN(nx_options_get_string(op, n))); }
    char **r = nx_options_get_rest(op);
    if (!rest || !rvset) CHECK(!r); else { CHECK(r); for (size_t i = 0; i < rv.size(); ++i) CHECK(r[i] && rv[i] == r[i], "rest %zu", i); CHECK(!r[rv.size()]); }
    // printed forms
    size_t w = 0; for (auto &o : v) w = std::max(w, join(o).size());
    std::string us = (hhd ? hd : ""); us += "USAGE: " + (hasprog ? prog : std::string("prog")) + " [options]"; if (rest) us += rreq ? " <" + rname + ">" : " [<" + rname + ">]"; us += "\n";
    for (auto &o : v) us += "  " + pad(w, join(o)) + " : " + o.help + " " + (o.req ? "(REQUIRED)" : o.t == 'h' ? "" : "[" + val(o.t, o.b, o.i, o.d, o.sset, o.s) + "]") + "\n";
    if (hft) us += ft;
    if (rest) w = std::max(w, rname.size());
    std::string vs; for (auto &o : v) if (o.t != 'h') vs += pad(w, join(o)) + ": " + val(o.t, o.vb, o.vi, o.vd, o.vsset, o.vs) + "\n";
    if (rest) { vs += pad(w, rname) + ": ["; for (size_t i = 0; i < rv.size(); ++i) vs += (i ? ", '" : "'") + rv[i] + "'"; vs += "]\n"; }
    for (int k = 0; k < 2; ++k) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); if (k) nx_options_print_usage(op, f); else nx_options_print_values(op, f); fclose(f); std::string g(b, n); free(b); CHECK(g == (k ? us : vs), "printed\n%swanted\n%s", g.c_str(), (k ? us : vs).c_str()); }
  };
  for (int steps = in.range(1, 14); steps > 0 && !died; --steps) switch (in.pick(8)) {
  case 0: case 1: case 2: case 3: { // declare
    O o = O(); o.t = "bids"[in.pick(4)]; o.req = in.pick(4) == 0; o.help = in.str(6, "abc d"); unsigned k = in.pick(5); std::string names; bool bad = false;
    if (in.pick(40) == 0) { names = nasty[in.pick(12)]; bad = true; }
    else { std::string a = nm(in), b; if (k < 2) { do b = nm(in); while (0); if ((a.size() == 2) == (b.size() == 2)) b = ""; } names = b.empty() ? a : a + "|" + b; for (auto &x : {a, b}) if (x.size() == 2) o.sn = x; else if (x.size() > 2) o.ln = x; }
    if (names == "-a|--b|c") { o.sn = "-a"; o.ln = "--b|c"; bad = false; }
    if (find(v, o.sn) || find(v, o.ln)) bad = true;
    o.b = in.coin(); o.i = (int)in.i32x(); o.d = in.f64(); o.sset = in.pick(6) != 0; o.s = in.str(8); if (!o.sset) o.s = "";
    char *nb = strdup(names.c_str()), *hb = strdup(o.help.c_str()), *sb = o.sset ? strdup(o.s.c_str()) : nullptr;
    char fm[2] = { (char)(o.req ? toupper(o.t) : o.t), 0 };
    if (in.pick(30) == 0) { fm[0] = in.coin() ? 'x' : 'h'; bad = true; }
    bool f = FATAL_IN(switch (o.t) { case 'b': nx_options_add(op, fm, nb, hb, (int)o.b); break; case 'i': nx_options_add(op, fm, nb, hb, o.i); break; case 'd': nx_options_add(op, fm, nb, hb, o.d); break; default: nx_options_add(op, fm, nb, hb, sb); });
    CHECK(f == bad, "declaring %s (%c)", names.c_str(), fm[0]);
    memset(nb, 'Z', strlen(nb)); memset(hb, 'Z', strlen(hb)); if (sb) memset(sb, 'Z', strlen(sb)); free(nb); free(hb); free(sb);
    if (f) { died = true; break; }
    o.vb = o.b; o.vi = o.i; o.vd = o.d; o.vsset = o.sset; o.vs = o.s; v.push_back(o); break; }
  case 4: if (in.coin()) { bool bad = find(v, "-h") || find(v, "--help"); bool f = FATAL_IN(nx_options_add_help(op)); CHECK(f == bad); if (f) { died = true; break; } O o = O(); o.t = 'h'; o.sn = "-h"; o.ln = "--help"; o.help = "Display usage help"; v.push_back(o); }
          else { rreq = in.pick(3) == 0; rname = in.str(6, "xyz"); char fm[2] = { rreq ? 'R' : 'r', 0 }; nx_options_add(op, fm, rname.c_str()); rest = true; rv.clear(); rvset = false; rset = false; } break;
  case 5: if (in.coin()) { hhd = in.coin(); hd = in.str(5); nx_options_set_usage_header(op, hhd ? hd.c_str() : nullptr); } else { hft = in.coin(); ft = in.str(5); nx_options_set_usage_footer(op, hft ? ft.c_str() : nullptr); } break;
  default: { // parse
    std::vector<std::string> a; a.push_back(in.str(4)); for (int n = in.range(0, 9); n > 0; --n) { unsigned k = in.pick(10);
      if (k < 5 && !v.empty()) { auto &o = v[in.pick(v.size())]; a.push_back(o.sn.empty() || (!o.ln.empty() && in.coin()) ? o.ln : o.sn); }
      else if (k < 7) { static const char *num[] = {"0", "-1", "12", "3.5", "-2e3", "2147483647", "-2147483648", "1e", "abc", "", " 7", "7x", "0x10", "nan", "inf", "1e-310"}; a.push_back(num[in.pick(16)]); }
      else if (k == 7) a.push_back(nm(in)); else a.push_back(in.str(6)); }
    std::vector<O> m = v; for (auto &o : m) o.set = false; std::vector<bool> used(a.size()); used[0] = true; bool bad = false;
    for (size_t i = 1; i < a.size() && !bad; ++i) { O *o = const_cast<O *>(find(m, a[i])); if (!o) continue; used[i] = true; o->set = true;
      if (o->t == 'h') { bad = true; break; } if (o->t == 'b') { o->vb = true; continue; }
      if (i + 1 == a.size()) { bad = true; break; } ++i; used[i] = true;
      if (o->t == 'i') o->vi = (int)strtol(a[i].c_str(), nullptr, 10); else if (o->t == 'd') o->vd = strtod(a[i].c_str(), nullptr); else { o->vsset = true; o->vs = a[i]; } }
    std::vector<std::string> nr; for (size_t i = 0; i < a.size(); ++i) if (!used[i]) nr.push_back(a[i]);
    if (!bad) { for (auto &o : m) if (!o.set) { if (o.req) bad = true; o.vb = o.b; o.vi = o.i; o.vd = o.d; o.vsset = o.sset; o.vs = o.s; } if (rest && rreq && nr.empty()) bad = true; }
    std::vector<char *> av; for (auto &s : a) av.push_back(strdup(s.c_str())); std::vector<char *> keep = av;
    FILE *se = stderr; char *eb = nullptr; size_t en = 0; stderr = open_memstream(&eb, &en);
    bool f = FATAL_IN(nx_options_set_from_args(op, (int)av.size(), av.data()));
    fclose(stderr); stderr = se; free(eb);
    CHECK(f == bad, "parsing %zu arguments", a.size()); CHECK(av == keep);
    for (size_t i = 0; i < a.size(); ++i) { CHECK(a[i] == av[i]); memset(av[i], 'Q', a[i].size()); free(av[i]); }
    if (f) { died = true; break; }
    v = m; prog = a[0]; hasprog = true; if (rest) { rv = nr; rset = !nr.empty(); rvset = rset; } break; }
  }
  if (died) { return 0; }
  check();
  nx_options_free(op); nx_options_free(nullptr);
  }
  CHECK(live.now() <= 0, "%ld blocks leaked", live.now());
  return 0;
}
