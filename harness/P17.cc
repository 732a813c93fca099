// P17 planar transforms, homographies, epipolar geometry and match normalisation
// MAXLEN: 300
// LIBS: -llapack -lblas
#include "common.hpp"
#include "virg/nexus/nx_types.h"
#include "virg/nexus/nx_transform_2d.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_point_match_2d.h"
#include "virg/nexus/nx_point_match_2d_stats.h"
#include "virg/nexus/nx_rotation_3d.h"
#include "virg/nexus/nx_mat234.h"
#include "virg/nexus/nx_uniform_sampler.h"
typedef long double LD; typedef std::vector<LD> M; typedef NXPointMatch2D PM;
#define NEAR(a, b, tol) CHECK(fabsl((LD)(a) - (LD)(b)) <= (LD)(tol), "got %.12Lg want %.12Lg", (LD)(a), (LD)(b))
static M mul(const M &A, const M &B) { M C(9, 0); for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) for (int k = 0; k < 3; ++k) C[c * 3 + r] += A[k * 3 + r] * B[c * 3 + k]; return C; }
static M rz(LD a) { return {cosl(a), sinl(a), 0, -sinl(a), cosl(a), 0, 0, 0, 1}; }
static M tr(LD x, LD y) { return {1, 0, 0, 0, 1, 0, x, y, 1}; }
static M dg(LD x, LD y) { return {x, 0, 0, 0, y, 0, 0, 0, 1}; }
static LD apply(const double *h, LD x, LD y, LD *o) { LD s = h[2] * x + h[5] * y + h[8]; o[0] = (h[0] * x + h[3] * y + h[6]) / s; o[1] = (h[1] * x + h[4] * y + h[7]) / s; return s; }
static double ang(In &in) { return in.coin() ? in.range(-8, 8) * M_PI / 4 : in.range(-700, 700) / 100.0; }
static void transforms(In &in) {
  double a = in.range(-50, 50) / 4.0, b = in.range(-50, 50) / 4.0, c = in.range(-50, 50) / 4.0, d = in.range(-50, 50) / 4.0, l = in.range(1, 40) / 8.0, psi = ang(in), phi = ang(in), th = in.range(-12, 12) / 10.0; double t[10]; float f[10]; t[9] = f[9] = 77;
  M S = mul(tr(a, b), mul(dg(l, l), mul(rz(psi), tr(c, d)))), A = mul(tr(a, b), mul(dg(l, l), mul(rz(psi), mul(dg(1 / cosl(th), 1), mul(rz(phi), tr(c, d))))));
  nx_transform_2d_fill_similarity_d(t, a, b, l, psi, c, d); for (int i = 0; i < 9; ++i) NEAR(t[i], S[i], 1e-10L); nx_transform_2d_fill_similarity_s(f, a, b, l, psi, c, d); for (int i = 0; i < 9; ++i) NEAR(f[i], S[i], 1e-3L);
  nx_transform_2d_fill_affine_d(t, a, b, l, psi, th, phi, c, d); for (int i = 0; i < 9; ++i) NEAR(t[i], A[i], 1e-10L); nx_transform_2d_fill_affine_s(f, a, b, l, psi, th, phi, c, d); for (int i = 0; i < 9; ++i) NEAR(f[i], A[i], 1e-3L); CHECK(t[9] == 77 && f[9] == 77);
  double x[8] = {0, 0, 10, 0, 10, 10, 0, 10}; for (auto &v : x) v += in.range(-20, 20) / 10.0; double h[10]; h[9] = 77; const LD sq[8] = {0, 0, 1, 0, 1, 1, 0, 1};
  for (int k = 0; k < 3; ++k) { if (k == 0) nx_homography_estimate_unit(h, x); else if (k == 1) nx_transform_2d_fill_perspective_d(h, x); else { float xf[8]; for (int i = 0; i < 8; ++i) xf[i] = x[i]; nx_transform_2d_fill_perspective_s(f, xf); for (int i = 0; i < 9; ++i) h[i] = f[i]; }
    double hx[9]; if (k == 0) memcpy(hx, h, sizeof hx); else memcpy(hx, h, sizeof hx);
    for (int i = 0; i < 4; ++i) { LD o[2]; apply(hx, x[2 * i], x[2 * i + 1], o); for (int c2 = 0; c2 < 2; ++c2) NEAR(o[c2], sq[2 * i + c2], k == 2 ? 2e-2L : 1e-8L); } CHECK(h[9] == 77); }
  float p[2] = {in.f32(), in.f32()}, q[3] = {0, 0, 77}; double s = nx_homography_transfer_fwd(h, q, p); LD o[2], w = apply(h, p[0], p[1], o); LD mg = fabsl((LD)h[2] * p[0]) + fabsl((LD)h[5] * p[1]) + fabsl((LD)h[8]); NEAR(s, w, 1e-9L * (mg + 1)); if (fabsl(w) > 1e-3L * mg) for (int i = 0; i < 2; ++i) NEAR(q[i], o[i], 1e-4L * (1 + fabsl(o[i])) + 1e-3L * (fabsl((LD)h[i] * p[0]) + fabsl((LD)h[3 + i] * p[1]) + fabsl((LD)h[6 + i])) / fabsl(w)); CHECK(q[2] == 77);
}
static bool sameButInl(const PM &a, const PM &b) { return !memcmp(a.x, b.x, 8) && !memcmp(a.xp, b.xp, 8) && a.match_cost == b.match_cost && a.sigma_x == b.sigma_x && a.sigma_xp == b.sigma_xp && a.id == b.id && a.idp == b.idp; }
static std::vector<PM> matches(In &in, int n, const double *h, double out, std::set<uint64_t> *good) {
  std::vector<PM> v(n); for (int i = 0; i < n; ++i) { PM &p = v[i]; memset(&p, 0, sizeof p); int g = i % 49; p.x[0] = 20 * (g % 7) + in.range(0, 12); p.x[1] = 20 * (g / 7) + in.range(0, 12); LD o[2]; apply(h, p.x[0], p.x[1], o); bool bad = in.range(0, 99) < out; p.xp[0] = o[0] + (bad ? (in.coin() ? 60 : -70) + in.range(-20, 20) : 0); p.xp[1] = o[1] + (bad ? in.range(-90, 90) : 0); p.match_cost = in.range(0, 9) / 2.0f; p.sigma_x = 1 + in.range(0, 4); p.sigma_xp = 1 + in.range(0, 4); p.id = 100 + i; p.idp = 900 + i; p.is_inlier = in.coin() ? NX_TRUE : NX_FALSE; if (!bad && good) good->insert(p.id); } return v; }
static void randh(In &in, double *h) { nx_transform_2d_fill_similarity_d(h, in.range(-30, 30), in.range(-30, 30), in.range(4, 12) / 8.0, in.range(-30, 30) / 10.0, -60, -60); h[2] = in.range(-3, 3) * 2e-4; h[5] = in.range(-3, 3) * 2e-4; }
static LD fdist(const double *F, const PM &p) { LD l[3]; for (int r = 0; r < 3; ++r) l[r] = (LD)F[r] * p.x[0] + (LD)F[3 + r] * p.x[1] + F[6 + r]; return fabsl(l[0] * p.xp[0] + l[1] * p.xp[1] + l[2]) / sqrtl(l[0] * l[0] + l[1] * l[1]); }
static void permuted(const std::vector<PM> &v, const std::vector<PM> &w, LD tol) { std::map<uint64_t, PM> m; for (auto &p : v) m[p.id] = p; CHECK(v.size() == w.size()); std::set<uint64_t> seen; for (auto &p : w) { CHECK(seen.insert(p.id).second, "a match appears twice"); CHECK(m.count(p.id)); const PM &q = m[p.id]; for (int c = 0; c < 2; ++c) { NEAR(p.x[c], q.x[c], tol); NEAR(p.xp[c], q.xp[c], tol * 4); } CHECK(p.idp == q.idp && p.match_cost == q.match_cost); NEAR(p.sigma_x, q.sigma_x, tol); NEAR(p.sigma_xp, q.sigma_xp, tol); } }
static void marks(In &in) {
  int n = in.range(1, 12); double h[9], hi[9]; randh(in, h); nx_dmat3_inv(hi, h); auto v = matches(in, n, h, 40, nullptr); for (auto &p : v) if (in.coin()) { p.xp[0] += in.range(-10, 10) / 4.0f; p.x[1] += in.range(-10, 10) / 4.0f; } double tol = in.range(1, 40) / 8.0;
  for (int k = 0; k < 2; ++k) { auto w = v; int c = k ? nx_homography_mark_inliers_inv(hi, n, w.data(), tol) : nx_homography_mark_inliers(h, n, w.data(), tol); int cc = 0; for (int i = 0; i < n; ++i) { LD o[2], d; if (k) { apply(hi, v[i].xp[0], v[i].xp[1], o); d = hypotl(o[0] - v[i].x[0], o[1] - v[i].x[1]); } else { apply(h, v[i].x[0], v[i].x[1], o); d = hypotl(o[0] - v[i].xp[0], o[1] - v[i].xp[1]); } CHECK(sameButInl(v[i], w[i])); if (fabsl(d - tol) > 1e-2L) CHECK((d < tol) == (w[i].is_inlier != NX_FALSE), "match %d at distance %Lg, tolerance %g, flag %d", i, d, tol, (int)w[i].is_inlier); cc += w[i].is_inlier != NX_FALSE; } CHECK(c == cc && cc == nx_point_match_2d_count_inliers(n, w.data())); }
  LD e = 0, eb = 0; int ni = 0; for (auto &p : v) if (p.is_inlier) { LD o[2]; apply(h, p.x[0], p.x[1], o); e += hypotl(o[0] - p.xp[0], o[1] - p.xp[1]); apply(hi, p.xp[0], p.xp[1], o); eb += hypotl(o[0] - p.x[0], o[1] - p.x[1]); ++ni; } if (ni) { NEAR(nx_homography_transfer_error_fwd(h, n, v.data()), e / ni, 1e-2L + 1e-3L * e); NEAR(nx_homography_transfer_error_bwd(h, n, v.data()), eb / ni, 1e-2L + 1e-3L * eb); NEAR(nx_homography_transfer_error_sym(h, n, v.data()), (e + eb) / ni / 2, 1e-2L + 1e-3L * (e + eb)); }
  double F[9]; for (auto &x : F) x = in.range(-20, 20) / 8.0; F[8] += 3; auto w = v; int c = nx_fundamental_mark_inliers(F, n, w.data(), tol * 8), cc = 0; for (int i = 0; i < n; ++i) { LD d = fdist(F, v[i]); CHECK(sameButInl(v[i], w[i])); if (std::isfinite((double)d)) { NEAR(nx_fundamental_epipolar_distance_fwd(F, &v[i]), d, 1e-6L * (1 + d)); if (fabsl(d - tol * 8) > 1e-3L) CHECK((d < tol * 8) == (w[i].is_inlier != NX_FALSE)); } cc += w[i].is_inlier != NX_FALSE; } CHECK(c == cc);
  // normalisation
  { w = v; auto *st = nx_point_match_2d_stats_new(); nx_point_match_2d_stats_normalize_matches(st, n, w.data()); LD m[4] = {0, 0, 0, 0}, d[2] = {0, 0}; for (auto &p : v) { m[0] += p.x[0]; m[1] += p.x[1]; m[2] += p.xp[0]; m[3] += p.xp[1]; } for (auto &x : m) x /= n; for (auto &p : v) { d[0] += hypotl(p.x[0] - m[0], p.x[1] - m[1]) / n; d[1] += hypotl(p.xp[0] - m[2], p.xp[1] - m[3]) / n; } if (d[0] > 1 && d[1] > 1) {
    NEAR(st->m[0], m[0], 1e-3L); NEAR(st->m[1], m[1], 1e-3L); NEAR(st->mp[0], m[2], 1e-3L); NEAR(st->mp[1], m[3], 1e-3L); NEAR(st->d, d[0], 1e-3L); NEAR(st->dp, d[1], 1e-3L);
    for (int i = 0; i < n; ++i) { for (int k = 0; k < 2; ++k) { NEAR(w[i].x[k], (v[i].x[k] - m[k]) / d[0], 1e-3L); NEAR(w[i].xp[k], (v[i].xp[k] - m[2 + k]) / d[1], 1e-3L); } NEAR(w[i].sigma_x, v[i].sigma_x / d[0], 1e-3L); NEAR(w[i].sigma_xp, v[i].sigma_xp / d[1], 1e-3L); }
    double g[9], ge[9]; memcpy(g, h, sizeof g); // g in normalised coordinates, denormalised must act as  T'^-1 g T
    nx_point_match_2d_stats_denormalize_homography(st, g); for (auto &p : v) { LD o[2], u[2]; LD s = apply(h, (p.x[0] - m[0]) / d[0], (p.x[1] - m[1]) / d[0], o); if (fabsl(s) < 0.1L) continue; apply(g, p.x[0], p.x[1], u); for (int k = 0; k < 2; ++k) NEAR(u[k], o[k] * d[1] + m[2 + k], 1e-3L * (1 + fabsl(o[k] * d[1]))); }
    memcpy(ge, F, sizeof ge); nx_point_match_2d_stats_denormalize_fundamental(st, ge); for (int i = 0; i < n; ++i) { LD a = 0, b = 0, mg = 1; LD X[3] = {(v[i].x[0] - m[0]) / d[0], (v[i].x[1] - m[1]) / d[0], 1}, Y[3] = {(v[i].xp[0] - m[2]) / d[1], (v[i].xp[1] - m[3]) / d[1], 1}, x[3] = {v[i].x[0], v[i].x[1], 1}, y[3] = {v[i].xp[0], v[i].xp[1], 1}; for (int cc2 = 0; cc2 < 3; ++cc2) for (int r = 0; r < 3; ++r) { a += Y[r] * F[cc2 * 3 + r] * X[cc2]; b += y[r] * ge[cc2 * 3 + r] * x[cc2]; mg += fabsl(y[r] * ge[cc2 * 3 + r] * x[cc2]); } NEAR(b, a, 1e-3L * mg); }
    nx_point_match_2d_stats_denormalize_matches(st, n, w.data()); permuted(v, w, 2e-2L); for (int i = 0; i < n; ++i) CHECK(w[i].id == v[i].id && w[i].is_inlier == v[i].is_inlier); }
    nx_point_match_2d_stats_reset(st); CHECK(st->m[0] == 0 && st->m[1] == 0 && st->mp[0] == 0 && st->mp[1] == 0 && st->d == 1 && st->dp == 1); nx_point_match_2d_stats_free(st); }
}
// square of the second smallest singular value of the 9-column epipolar system of the inliers (Jacobi rotations in long double): how well the matches determine the matrix
static LD gap2(const std::vector<PM> &v) { LD A[9][9] = {{0}}; for (auto &p : v) if (p.is_inlier) { LD X[3] = {p.x[0], p.x[1], 1}, Y[3] = {p.xp[0], p.xp[1], 1}, c[9]; for (int i = 0; i < 9; ++i) c[i] = X[i % 3] * Y[i / 3]; for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) A[i][j] += c[i] * c[j]; }
  for (int it = 0; it < 60; ++it) for (int p = 0; p < 9; ++p) for (int q = p + 1; q < 9; ++q) { if (fabsl(A[p][q]) < 1e-18L) continue; LD th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th < 0 ? -1 : 1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c; for (int k = 0; k < 9; ++k) { LD a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; } for (int k = 0; k < 9; ++k) { LD a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; } }
  std::vector<LD> d; for (int i = 0; i < 9; ++i) d.push_back(A[i][i]); std::sort(d.begin(), d.end()); return d[1]; }
static void estimate(In &in) {
  nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), 7);
  LiveBlocks live;
  { double h[9], g[9]; randh(in, h); int n = in.range(3, 40); bool noisy = in.coin(); std::set<uint64_t> good; auto v = matches(in, n, h, noisy ? 25 : 0, &good); auto w = v; 
    if (!noisy && n >= 9) { nx_homography_estimate_dlt(g, n, v.data()); for (auto &p : v) { LD o[2]; apply(g, p.x[0], p.x[1], o); for (int k = 0; k < 2; ++k) NEAR(o[k], p.xp[k], 0.1L); } }
    if (good.size() >= 9) { for (auto &p : w) p.is_inlier = good.count(p.id) ? NX_TRUE : NX_FALSE; nx_homography_estimate_dlt_inliers(g, n, w.data()); for (auto &p : w) if (p.is_inlier) { LD o[2]; apply(g, p.x[0], p.x[1], o); for (int k = 0; k < 2; ++k) NEAR(o[k], p.xp[k], 0.1L); } }
    { PM q[4]; int ids[4] = {2, 0, 3, 1}; double cx[8] = {0, 0, 100, 0, 100, 100, 0, 100}; for (int i = 0; i < 4; ++i) { memset(&q[i], 0, sizeof q[i]); for (int k = 0; k < 2; ++k) q[i].x[k] = cx[2 * i + k] + in.range(-20, 20); LD o[2]; apply(h, q[i].x[0], q[i].x[1], o); q[i].xp[0] = o[0]; q[i].xp[1] = o[1]; } double det = nx_homography_estimate_4pt(g, ids, q); if (det != 0) for (auto &p : q) { LD o[2]; apply(g, p.x[0], p.x[1], o); for (int k = 0; k < 2; ++k) NEAR(o[k], p.xp[k], 0.5L); } }
    bool norm = in.coin(); w = v; double tol = norm ? 3 : 2; for (auto &x : g) x = 0; int c = norm ? nx_homography_estimate_norm_ransac(g, n, w.data(), tol, 40) : nx_homography_estimate_ransac(g, n, w.data(), tol, 40); permuted(v, w, norm ? 5e-2L : 0); if (n < 4) CHECK(c == 0); else { int fl = nx_point_match_2d_count_inliers(n, w.data()); CHECK(c == 0 || c == fl, "returned %d, flagged %d", c, fl); CHECK(c >= 0 && c <= n); if (c > 0) for (auto &p : w) { LD o[2]; apply(g, p.x[0], p.x[1], o); LD d = hypotl(o[0] - p.xp[0], o[1] - p.xp[1]); if (fabsl(d - tol) > 0.3L) CHECK((d < tol) == (p.is_inlier != NX_FALSE), "flag %d but distance %Lg", (int)p.is_inlier, d); } if (!noisy && n >= 20) CHECK(fl == n, "%d of %d exact matches found", fl, n); }
    // epipolar: exact matches of points in space
    double R[9], t[3] = {4.0 + in.range(0, 4), in.range(-2, 2) / 2.0, in.range(-4, 4) / 4.0}, ax[3] = {in.range(-2, 2) / 4.0, 1, in.range(-2, 2) / 4.0}, E[9], K[9] = {500, 0, 0, 0, 480, 0, 320, 240, 1}; nx_rotation_3d_axis_angle(R, ax, in.range(-25, 25) / 100.0); nx_essential_from_Rt(E, R, t);
    int m = in.range(9, 30); std::vector<PM> e(m), px; for (int i = 0; i < m; ++i) { memset(&e[i], 0, sizeof(PM)); LD X[3] = {in.range(-40, 40) / 10.0L + (i * 7 % 11 - 5) * 0.7L, in.range(-40, 40) / 10.0L + (i * 5 % 13 - 6) * 0.6L, 12 + in.range(0, 80) / 10.0L + i * 3 % 7}, Y[3]; for (int r = 0; r < 3; ++r) Y[r] = (LD)R[r] * X[0] + (LD)R[3 + r] * X[1] + (LD)R[6 + r] * X[2] + t[r]; for (int k = 0; k < 2; ++k) { e[i].x[k] = X[k] / X[2]; e[i].xp[k] = Y[k] / Y[2]; } e[i].is_inlier = NX_TRUE; e[i].id = i; e[i].idp = i; LD s = 0; double xx[3] = {e[i].x[0], e[i].x[1], 1}, yy[3] = {e[i].xp[0], e[i].xp[1], 1}; for (int c2 = 0; c2 < 3; ++c2) for (int r = 0; r < 3; ++r) s += (LD)yy[r] * E[c2 * 3 + r] * xx[c2]; NEAR(s, 0, 2e-5L); }
    double Rb[4][9], tb[4][3], *Rp[4], *tp[4]; for (int i = 0; i < 4; ++i) { Rp[i] = Rb[i]; tp[i] = tb[i]; } double s2 = nx_essential_decompose_to_Rt(E, Rp, tp); NEAR(s2, 0, 1e-9L); LD nt = sqrtl((LD)t[0] * t[0] + (LD)t[1] * t[1] + (LD)t[2] * t[2]); int hit = 0; for (int i = 0; i < 4; ++i) { LD d = 0; for (int k = 0; k < 9; ++k) d += fabsl((LD)Rb[i][k] - R[k]); for (int k = 0; k < 3; ++k) d += fabsl((LD)tb[i][k] - t[k] / nt); if (d < 1e-6L) ++hit; NEAR(nx_dmat3_det(Rb[i]), 1, 1e-9L); } CHECK(hit == 1, "the pose occurs %d times among the four candidates", hit);
    int zs[4] = {0, 0, 0, 0}; int b = nx_epipolar_pick_best_Rt(Rp, tp, m, e.data(), zs); CHECK(b >= 0 && b < 4); LD d = 0; for (int k = 0; k < 9; ++k) d += fabsl((LD)Rb[b][k] - R[k]); for (int k = 0; k < 3; ++k) d += fabsl((LD)tb[b][k] - t[k] / nt); CHECK(d < 1e-6L, "picked a wrong pose");
    double Kp[9] = {450, 0, 0, 0, 470, 0, 300, 200, 1}, Ki[9], Kpi[9], F[9], E2[9]; nx_dmat3_inv(Ki, K); nx_dmat3_inv(Kpi, Kp); M Kit(9), Kpt(9); for (int c2 = 0; c2 < 3; ++c2) for (int r = 0; r < 3; ++r) Kpt[r * 3 + c2] = Kpi[c2 * 3 + r]; M Fm = mul(Kpt, mul(M(E, E + 9), M(Ki, Ki + 9))); for (int i = 0; i < 9; ++i) F[i] = Fm[i]; nx_essential_from_fundamental(E2, F, K, Kp); for (int i = 0; i < 9; ++i) NEAR(E2[i], E[i], 1e-7L);
    auto px2 = e; for (auto &p : px2) { for (int k = 0; k < 2; ++k) { p.x[k] = (k ? 480 : 500) * p.x[k] + (k ? 240 : 320); p.xp[k] = (k ? 470 : 450) * p.xp[k] + (k ? 200 : 300); } p.match_cost = in.range(0, 9); } auto q = px2; double G[9] = {0}; int c3 = in.coin() ? nx_fundamental_estimate_norm_ransac(G, m, q.data(), 4.0, 20) : nx_fundamental_estimate_ransac(G, m, q.data(), 4.0, 20); permuted(px2, q, 0.1L); CHECK(c3 == nx_point_match_2d_count_inliers(m, q.data())); if (c3 > 0) { for (auto &p : q) { LD dd = fdist(G, p); if (fabsl(dd - 4) > 1) CHECK((dd < 4) == (p.is_inlier != NX_FALSE)); } LD det = nx_dmat3_det(G), mg = 0; for (auto x : G) mg = std::max(mg, fabsl((LD)x)); (void)det; (void)mg; }
    // all matches exact: the least-squares matrix explains every one of them; with outliers flagged away the same from the inliers alone
    for (int k = 0; k < 2; ++k) { auto z = e; if (k) for (int i = 0; i < in.range(1, 4); ++i) { PM o = e[i]; o.xp[1] += 0.7f; o.is_inlier = NX_FALSE; z.insert(z.begin() + in.range(0, (int)z.size()), o); } if (gap2(z) < 1e-4L) continue; double H[10]; H[9] = 77; if (k) nx_fundamental_estimate_inliers(H, z.size(), z.data()); else nx_fundamental_estimate(H, z.size(), z.data()); CHECK(H[9] == 77); LD fn = 0; for (int i = 0; i < 9; ++i) fn += (LD)H[i] * H[i]; NEAR(fn, 1, 1e-3L); for (auto &p : z) if (p.is_inlier) { LD rsd = 0, X[3] = {p.x[0], p.x[1], 1}, Y[3] = {p.xp[0], p.xp[1], 1}; for (int c2 = 0; c2 < 3; ++c2) for (int r = 0; r < 3; ++r) rsd += Y[r] * H[c2 * 3 + r] * X[c2]; NEAR(rsd, 0, 1e-3L); } NEAR(nx_dmat3_det(H), 0, 1e-7L); }
    // few inliers: the returned matrix is the one the flags and the count belong to
    { int mm = in.range(8, 24); std::vector<PM> z(mm); for (int i = 0; i < mm; ++i) { memset(&z[i], 0, sizeof(PM)); for (int k = 0; k < 2; ++k) { z[i].x[k] = in.range(0, 600) + i; z[i].xp[k] = in.range(0, 600) + 3 * (i % 5); } z[i].id = i; z[i].idp = i; z[i].match_cost = in.range(0, 9); } auto y = z; double H[9] = {0}; double tl = in.range(1, 40) / 8.0; int c = nx_fundamental_estimate_ransac(H, mm, y.data(), tl, in.range(1, 12)); permuted(z, y, 0); CHECK(c == nx_point_match_2d_count_inliers(mm, y.data())); auto y2 = y; CHECK(nx_fundamental_mark_inliers(H, mm, y2.data(), tl) == c, "the returned matrix has other inliers"); for (int i = 0; i < mm; ++i) CHECK((y2[i].is_inlier != NX_FALSE) == (y[i].is_inlier != NX_FALSE)); }
    CHECK(nx_fundamental_estimate_ransac(G, 7, q.data(), 4.0, 20) == 0);
  }
  CHECK(live.now() <= 0, "leaks %ld blocks", live.now());
}
static void keyp(In &in) { NXKeypoint k, p; memset(&k, 0, sizeof k); memset(&p, 0, sizeof p); k.x = in.range(0, 900); k.y = in.range(0, 900); p.x = in.range(0, 900); p.y = in.range(0, 900); k.level = in.range(0, 5); p.level = in.range(0, 5); k.scale = in.range(1, 9); p.scale = in.range(1, 9); k.id = in.u32(); p.id = in.u32(); k.xs = in.f32(); k.ys = in.f32(); p.xs = in.f32(); p.ys = in.f32(); k.sigma = 1; p.sigma = 1;
  auto m = nx_point_match_2d_from_keypoints(&k, &p, 2.0f, 3.5f, NX_TRUE); CHECK(m.x[0] == nx_keypoint_xs0(&k) && m.x[1] == nx_keypoint_ys0(&k) && m.xp[0] == nx_keypoint_xs0(&p) && m.xp[1] == nx_keypoint_ys0(&p) && m.id == k.id && m.idp == p.id && m.match_cost == 3.5f && m.is_inlier == NX_TRUE && m.sigma_x == 2 * k.scale && m.sigma_xp == 2 * p.scale); }
ENTRY { In in(data, size); switch (in.pick(4)) { case 0: transforms(in); break; case 1: marks(in); break; case 2: keyp(in); break; default: estimate(in); } return 0; }
