// P18 order statistics and moments against direct computation
// MAXLEN: 300
#include "common.hpp"
#include "virg/nexus/nx_types.h"
#include "virg/nexus/nx_statistics.h"
#include "virg/nexus/nx_math.h"
typedef long double LD;
#define NEAR(a, b, tol, w) CHECK(fabsl((LD)(a) - (LD)(b)) <= (LD)(tol), "%s: got %.15Lg want %.15Lg", w, (LD)(a), (LD)(b))
static LD med(const std::vector<LD> &v, size_t a, size_t n) { return (v[a + (n - 1) / 2] + v[a + n / 2]) / 2; }
static void check(const NXStatistics1D &s, std::vector<LD> v) {
  int n = v.size(); CHECK(s.n == n); if (n == 0) { CHECK(s.mean == 0 && s.median == 0 && s.stdev == 0 && s.min == 0 && s.max == 0 && s.lower_quartile == 0 && s.upper_quartile == 0 && s.interquartile_range == 0); return; }
  std::sort(v.begin(), v.end()); LD m = 0, q = 0, mg = 1; for (LD x : v) { m += x; mg = std::max(mg, fabsl(x)); } m /= n; for (LD x : v) q += (x - m) * (x - m); LD t = 1e-9L * mg;
  NEAR(s.mean, m, t, "mean"); CHECK(s.min == (double)v[0] && s.max == (double)v[n - 1], "extremes"); NEAR(s.median, med(v, 0, n), t, "median");
  if (n == 1) { CHECK(s.stdev == 0 && s.interquartile_range == 0); NEAR(s.lower_quartile, v[0], t, "lq"); NEAR(s.upper_quartile, v[0], t, "uq"); return; }
  NEAR(s.stdev, sqrtl(q / (n - 1)), 1e-6L * mg, "stdev"); int h = n / 2; NEAR(s.lower_quartile, med(v, 0, h), t, "lower quartile"); NEAR(s.upper_quartile, med(v, n - h, h), t, "upper quartile"); NEAR(s.interquartile_range, med(v, n - h, h) - med(v, 0, h), t, "interquartile range");
}
ENTRY {
  In in(data, size); int n = in.range(0, 40); bool big = in.coin(); std::vector<double> d(n); std::vector<int> i(n); std::vector<LD> vd, vi;
  for (int k = 0; k < n; ++k) { d[k] = in.f64(); i[k] = big ? (int)in.i32x() : in.range(-20, 20); vd.push_back(d[k]); vi.push_back(i[k]); }
  NXStatistics1D s; memset(&s, 0xa5, sizeof s); d.push_back(77); i.push_back(77); nx_dstatistics_1d(&s, n, d.data()); check(s, vd); memset(&s, 0xa5, sizeof s); nx_istatistics_1d(&s, n, i.data()); check(s, vi); CHECK(d[n] == 77 && i[n] == 77);
  std::sort(vd.begin(), vd.end()); for (int k = 0; k < n && n > 1; ++k) CHECK(d[k] == (double)vd[k], "values are not sorted in place");
  int a = (int)in.i32x(), b = (int)in.i32x(); int c = nx_compare_int_incr(&a, &b); CHECK((c < 0) == (a < b) && (c > 0) == (a > b), "order of %d and %d", a, b); double x = in.f64(), y = in.coin() ? x : in.f64(); c = nx_compare_double_incr(&x, &y); CHECK((c < 0) == (x < y) && (c > 0) == (x > y));
  CHECK(nx_min_i(a, b) == std::min(a, b) && nx_max_i(a, b) == std::max(a, b) && nx_min_d(x, y) == std::min(x, y) && nx_max_d(x, y) == std::max(x, y) && nx_min_s(x, y) == std::min((float)x, (float)y) && nx_max_s(x, y) == std::max((float)x, (float)y) && nx_signum(x) == (x > 0) - (x < 0));
  double z = in.range(-600, 600) / 100.0; CHECK(fabs(nx_erf(z) - erf(z)) < 2e-7, "error function at %g", z);
  return 0;
}
