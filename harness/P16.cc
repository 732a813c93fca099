// P16 rotations, quaternions, pinhole projection and triangulation
// MAXLEN: 400
// LIBS: -llapack -lblas
#include "common.hpp"
#include "virg/nexus/nx_types.h"
#include "virg/nexus/nx_quaternion.h"
#include "virg/nexus/nx_rotation_3d.h"
#include "virg/nexus/nx_pinhole.h"
#include "virg/nexus/nx_point_match_2d.h"
#include "virg/nexus/nx_mat234.h"
typedef long double LD; typedef std::vector<LD> M;
#define NEAR(a, b, tol) CHECK(fabsl((LD)(a) - (LD)(b)) <= (LD)(tol), "got %.12Lg want %.12Lg", (LD)(a), (LD)(b))
static M mul(const M &A, const M &B) { M C(9, 0); for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) for (int k = 0; k < 3; ++k) C[c * 3 + r] += A[k * 3 + r] * B[c * 3 + k]; return C; }
static M rx(LD a) { return {1, 0, 0, 0, cosl(a), sinl(a), 0, -sinl(a), cosl(a)}; }
static M ry(LD a) { return {cosl(a), 0, -sinl(a), 0, 1, 0, sinl(a), 0, cosl(a)}; }
static M rz(LD a) { return {cosl(a), sinl(a), 0, -sinl(a), cosl(a), 0, 0, 0, 1}; }
static void same(const double *R, const M &W, LD tol = 1e-12L) { for (int i = 0; i < 9; ++i) NEAR(R[i], W[i], tol); }
static M unitaxis(const double *a) { LD l = sqrtl((LD)a[0] * a[0] + (LD)a[1] * a[1] + (LD)a[2] * a[2]); return {a[0] / l, a[1] / l, a[2] / l}; }
static M rodrigues(const M &u, LD t) { M R(9); LD c = cosl(t), s = sinl(t); LD X[9] = {0, u[2], -u[1], -u[2], 0, u[0], u[1], -u[0], 0}; for (int i = 0; i < 9; ++i) R[i] = c * (i % 4 == 0) + (1 - c) * u[i % 3] * u[i / 3] + s * X[i]; return R; }
static double ang(In &in) { switch (in.pick(6)) { case 0: return 0; case 1: return M_PI; case 2: return -M_PI / 2; case 3: return in.range(-8, 8) * M_PI / 4; default: return in.range(-700, 700) / 100.0; } }
static void axis(In &in, double *a) { do { for (int i = 0; i < 3; ++i) a[i] = in.range(-6, 6) / (in.coin() ? 1.0 : 4.0); if (!in.more()) a[0] = 1; } while (a[0] == 0 && a[1] == 0 && a[2] == 0); }
static void qmul(const double *a, const double *b, LD *o) { o[0] = (LD)a[0] * b[0]; for (int i = 1; i < 4; ++i) o[0] -= (LD)a[i] * b[i]; for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; o[i + 1] = (LD)a[0] * b[i + 1] + (LD)b[0] * a[i + 1] + (LD)a[j + 1] * b[k + 1] - (LD)a[k + 1] * b[j + 1]; } }
static void rot(In &in) {
  double a = ang(in), b = ang(in), g = ang(in), R[10], ax[3], q[5]; R[9] = q[4] = 77; axis(in, ax); M u = unitaxis(ax);
  nx_rotation_3d_RzRyRx(R, a, b, g); same(R, mul(mul(rz(g), ry(b)), rx(a))); nx_rotation_3d_RxRyRz(R, a, b, g); same(R, mul(mul(rx(a), ry(b)), rz(g)));
  double R0[9]; memcpy(R0, R, sizeof R0); nx_rotation_3d_invert(R); for (int i = 0; i < 9; ++i) CHECK(R[i] == R0[(i % 3) * 3 + i / 3]);
  nx_rotation_3d_axis_angle(R, ax, a); M W = rodrigues(u, a); same(R, W); CHECK(R[9] == 77);
  nx_quaternion_from_axis_angle(q, ax, a); NEAR(q[0], cosl((LD)a / 2), 1e-12L); for (int i = 0; i < 3; ++i) NEAR(q[i + 1], u[i] * sinl((LD)a / 2), 1e-12L); CHECK(q[4] == 77);
  double Q[9]; nx_quaternion_to_R(q, Q); same(Q, W); double v[3] = {in.f32(), in.f32(), in.f32()}, v0[3] = {v[0], v[1], v[2]}; LD mv = 1 + fabsl((LD)v[0]) + fabsl((LD)v[1]) + fabsl((LD)v[2]);
  nx_quaternion_rotate(q, v); for (int r = 0; r < 3; ++r) NEAR(v[r], W[r] * v0[0] + W[3 + r] * v0[1] + W[6 + r] * v0[2], 1e-12L * mv);
  double p[4]; nx_quaternion_from_R(p, Q); LD d = 0; for (int i = 0; i < 4; ++i) d += (LD)p[i] * q[i]; LD sg = d < 0 ? -1 : 1; for (int i = 0; i < 4; ++i) NEAR(p[i], sg * q[i], 1e-6L);
  double T[7] = {q[0], q[1], q[2], q[3], 4, 5, 6}, t[3]; nx_quaternion_to_Rt(T, R, t); same(R, W); CHECK(t[0] == 4 && t[1] == 5 && t[2] == 6);
}
static void quat(In &in) {
  double q[5], r[4], s[4], o[5]; q[4] = o[4] = 77; LD m = 1; for (int i = 0; i < 4; ++i) { q[i] = in.f32(); r[i] = in.f32(); s[i] = in.f32(); m = std::max({m, fabsl((LD)q[i]), fabsl((LD)r[i]), fabsl((LD)s[i])}); } double k = in.f32(); LD w[4];
  memcpy(o, q, 40); nx_quaternion_scale(o, k); for (int i = 0; i < 4; ++i) NEAR(o[i], (LD)q[i] * k, 1e-13L * m * (1 + fabsl((LD)k))); memcpy(o, q, 40); nx_quaternion_add(o, r); for (int i = 0; i < 4; ++i) NEAR(o[i], (LD)q[i] + r[i], 1e-13L * m);
  nx_quaternion_sum(o, r, s); for (int i = 0; i < 4; ++i) NEAR(o[i], (LD)s[i] + r[i], 1e-13L * m); memcpy(o, q, 40); nx_quaternion_mul(o, r); qmul(q, r, w); for (int i = 0; i < 4; ++i) NEAR(o[i], w[i], 1e-13L * m * m);
  if (in.coin()) { memcpy(o, q, 40); nx_quaternion_mul(o, o); qmul(q, q, w); for (int i = 0; i < 4; ++i) NEAR(o[i], w[i], 1e-13L * m * m); }
  nx_quaternion_prod(o, r, s); qmul(r, s, w); for (int i = 0; i < 4; ++i) NEAR(o[i], w[i], 1e-13L * m * m); memcpy(o, q, 40); nx_quaternion_conj(o); CHECK(o[0] == q[0] && o[1] == -q[1] && o[2] == -q[2] && o[3] == -q[3]);
  LD d = 0, n = 0; for (int i = 0; i < 4; ++i) { d += (LD)q[i] * r[i]; n += (LD)q[i] * q[i]; } NEAR(nx_quaternion_dot(q, r), d, 1e-13L * m * m); n = sqrtl(n); if (n > 1e-6L) { memcpy(o, q, 40); NEAR(nx_quaternion_to_unit(o), n, 1e-12L * m); for (int i = 0; i < 4; ++i) NEAR(o[i], q[i] / n, 1e-10L); } CHECK(o[4] == 77);
}
static void cam(In &in, double *P) { double K[9] = {(double)in.range(200, 900), 0, 0, in.range(-4, 4) / 2.0, (double)in.range(200, 900), 0, (double)in.range(100, 400), (double)in.range(100, 300), 1}, R[9], t[3]; double ax[3]; axis(in, ax); nx_rotation_3d_axis_angle(R, ax, in.range(-20, 20) / 100.0); for (auto &x : t) x = in.range(-8, 8) / 4.0; t[2] = in.range(20, 40);
  bool hk = in.u8() % 4, hr = in.u8() % 4, ht = true; double I[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, Z[3] = {0, 0, 0};
  P[12] = 77; nx_pinhole_projection_from_krt(P, hk ? K : nullptr, hr ? R : nullptr, ht ? t : nullptr); M W = mul(M(hk ? K : I, (hk ? K : I) + 9), M(hr ? R : I, (hr ? R : I) + 9)); for (int i = 0; i < 9; ++i) NEAR(P[i], W[i], 1e-9L); const double *k = hk ? K : I, *tt = ht ? t : Z; for (int r = 0; r < 3; ++r) NEAR(P[9 + r], (LD)k[r] * tt[0] + (LD)k[3 + r] * tt[1] + (LD)k[6 + r] * tt[2], 1e-9L); CHECK(P[12] == 77); 
  double P2[12]; nx_pinhole_projection_from_krt(P2, K, R, nullptr); for (int i = 9; i < 12; ++i) CHECK(P2[i] == 0); }
static void pin(In &in) {
  double P[13], Q[13]; cam(in, P); cam(in, Q); int n = in.range(1, 8); std::vector<float> X(3 * n), x(2 * n + 1, 77), Xh(4 * n), xh(3 * n + 1, 77), y(2 * n);
  for (auto &v : X) v = in.range(-40, 40) / 10.0f; for (int i = 0; i < n; ++i) { for (int c = 0; c < 3; ++c) Xh[4 * i + c] = X[3 * i + c]; Xh[4 * i + 3] = in.range(-8, 8) / 4.0f; }
  double md = nx_pinhole_project(P, n, X.data(), x.data()); LD mw = INFINITY; for (int i = 0; i < n; ++i) { LD h[3]; for (int r = 0; r < 3; ++r) h[r] = (LD)P[r] * X[3 * i] + (LD)P[3 + r] * X[3 * i + 1] + (LD)P[6 + r] * X[3 * i + 2] + P[9 + r]; mw = std::min(mw, fabsl(h[2])); for (int c = 0; c < 2; ++c) NEAR(x[2 * i + c], h[c] / h[2], 1e-6L * (1 + fabsl(h[c] / h[2]))); } NEAR(md, mw, 1e-9L * (1 + mw)); CHECK(x[2 * n] == 77);
  nx_pinhole_project_h(P, n, Xh.data(), xh.data()); for (int i = 0; i < n; ++i) for (int r = 0; r < 3; ++r) { LD h = 0, mg = 1; for (int c = 0; c < 4; ++c) { h += (LD)P[3 * c + r] * Xh[4 * i + c]; mg += fabsl((LD)P[3 * c + r] * Xh[4 * i + c]); } NEAR(xh[3 * i + r], h, 1e-6L * mg); } CHECK(xh[3 * n] == 77);
  // triangulation of exact projections, only the inliers, at most n_pt of them
  { LD dif = 0; for (int i = 0; i < 12; ++i) dif += fabsl((LD)P[i] - Q[i]); (void)dif; }
  double P0[13], P1[13], K[9] = {500, 0, 0, 0, 500, 0, 320, 240, 1}, R[9], ax[3] = {0, 1, 0}, t0[3] = {0, 0, 20}, t1[3] = {-4.0 - in.range(0, 4), in.range(-2, 2) / 2.0, 20}; nx_rotation_3d_axis_angle(R, ax, 0.2); nx_pinhole_projection_from_krt(P0, K, nullptr, t0); nx_pinhole_projection_from_krt(P1, K, R, t1); nx_pinhole_project(P0, n, X.data(), x.data()); nx_pinhole_project(P1, n, X.data(), y.data());
  std::vector<NXPointMatch2D> cl(n); std::vector<int> inl; for (int i = 0; i < n; ++i) { memset(&cl[i], 0, sizeof cl[i]); for (int c = 0; c < 2; ++c) { cl[i].x[c] = x[2 * i + c]; cl[i].xp[c] = y[2 * i + c]; } cl[i].is_inlier = in.u8() % 4 ? NX_TRUE : NX_FALSE; if (cl[i].is_inlier) inl.push_back(i); }
  int npt = in.range(0, n); std::vector<float> O(3 * npt + 1, 77); std::vector<int> id(npt + 1, 77); int want = std::min(npt, (int)inl.size()); int got = nx_pinhole_triangulate(npt, O.data(), id.data(), n, cl.data(), P0, P1); CHECK(got == want, "triangulated %d, want %d", got, want);
  for (int i = 0; i < got; ++i) { CHECK(id[i] == inl[i]); for (int c = 0; c < 3; ++c) NEAR(O[3 * i + c], X[3 * id[i] + c], 2e-2L); } for (int i = got; i <= npt; ++i) CHECK(id[i] == 77); for (int i = 3 * got; i <= 3 * npt; ++i) CHECK(O[i] == 77);
}
ENTRY { In in(data, size); switch (in.pick(3)) { case 0: rot(in); break; case 1: quat(in); break; default: pin(in); } return 0; }
