// P15 vectors and matrices against textbook definitions computed in long double
// MAXLEN: 700
// LIBS: -llapack -lblas
#include "common.hpp"
#include "virg/nexus/nx_types.h"
#include "virg/nexus/nx_vec.h"
#include "virg/nexus/nx_vec234.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_mat234.h"
#include "virg/nexus/nx_svd.h"
#include "virg/nexus/nx_linear_solvers.h"
#include "virg/nexus/nx_alloc.h"
typedef long double LD;
template <class T> struct V { std::vector<T> a; V(In &in, int n) { for (int i = 0; i < n; ++i) a.push_back((T)in.f32()); } T &operator[](int i) { return a[i]; } operator T *() { return a.data(); } };
static LD mag(const double *A, int n) { LD m = 1; for (int i = 0; i < n; ++i) m = std::max(m, fabsl((LD)A[i])); return m; }
template <class T> static LD magt(const T *A, int n) { LD m = 1; for (int i = 0; i < n; ++i) m = std::max(m, fabsl((LD)A[i])); return m; }
#define NEAR(a, b, tol) CHECK(fabsl((LD)(a) - (LD)(b)) <= (LD)(tol), "got %.9Lg want %.9Lg", (LD)(a), (LD)(b))

static void vec3(In &in) {
  V<double> a(in, 3), b(in, 3); V<float> f(in, 3), g(in, 3); double c[5] = {0, 0, 0, 7, 7};
  LD m = magt(&a[0], 3) * magt(&b[0], 3), mf = magt(&f[0], 3) * magt(&g[0], 3);
  NEAR(nx_dvec3_dot(a, b), (LD)a[0] * b[0] + (LD)a[1] * b[1] + (LD)a[2] * b[2], 1e-13L * m);
  NEAR(nx_svec3_dot(f, g), (LD)f[0] * g[0] + (LD)f[1] * g[1] + (LD)f[2] * g[2], 3e-6L * mf);
  NEAR(nx_dvec3_norm_sq(a), (LD)a[0] * a[0] + (LD)a[1] * a[1] + (LD)a[2] * a[2], 1e-13L * m * m);
  NEAR(nx_svec3_norm_sq(f), (LD)f[0] * f[0] + (LD)f[1] * f[1] + (LD)f[2] * f[2], 3e-6L * magt(&f[0], 3) * magt(&f[0], 3));
  LD d = 0; for (int i = 0; i < 3; ++i) d += ((LD)f[i] - g[i]) * ((LD)f[i] - g[i]); NEAR(nx_svec3_dist_sq(f, g), d, 1e-5L * (magt(&f[0], 3) + magt(&g[0], 3)) * (magt(&f[0], 3) + magt(&g[0], 3)));
  nx_dvec3_cross(c, a, b); for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; NEAR(c[i], (LD)a[j] * b[k] - (LD)a[k] * b[j], 1e-13L * m); } CHECK(c[3] == 7);
  LD l = sqrtl((LD)a[0] * a[0] + (LD)a[1] * a[1] + (LD)a[2] * a[2]); NEAR(nx_dvec3_norm(a), l, 1e-12L * (1 + l));
  double u[3]; nx_dvec3_copy(u, a); for (int i = 0; i < 3; ++i) CHECK(u[i] == a[i]);
  double r = nx_dvec3_to_unit(u); NEAR(r, l, 1e-12L * (1 + l)); for (int i = 0; i < 3; ++i) { if (l > 1e-6L) NEAR(u[i], a[i] / l, 1e-10L); else if (l == 0) CHECK(u[i] == a[i]); }
}
static LD det3(const LD *M) { return M[0] * (M[4] * M[8] - M[7] * M[5]) - M[3] * (M[1] * M[8] - M[7] * M[2]) + M[6] * (M[1] * M[5] - M[4] * M[2]); }
template <class T, class F, class R> static void inv3(V<T> &M, F fn, LD eps, R) {
  LD L[9]; for (int i = 0; i < 9; ++i) L[i] = M[i];
  LD m = magt(&M[0], 9), d = det3(L); T I[10]; for (auto &x : I) x = 77; LD r = fn(I, (T *)M);
  NEAR(r, d, eps * m * m * m); CHECK(I[9] == 77);
  if (r == 0) { for (int i = 0; i < 9; ++i) CHECK(I[i] == 0); return; }
  if (fabsl(d) < 1e-2L * m * m * m) return;
  for (int c = 0; c < 3; ++c) for (int q = 0; q < 3; ++q) { LD s = 0; for (int j = 0; j < 3; ++j) s += L[j * 3 + q] * I[c * 3 + j]; NEAR(s, c == q, 3e4L * eps); }
}
static void mat3(In &in) {
  V<double> A(in, 9), B(in, 9), v(in, 3), w(in, 3); V<float> F(in, 9), G(in, 9), F4(in, 16), G4(in, 16); V<double> A4(in, 16), B4(in, 16);
  LD m = mag(A, 9) * mag(B, 9); double C[10]; C[9] = 5;
  nx_dmat3_mul(C, A, B); for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) { LD s = 0; for (int k = 0; k < 3; ++k) s += (LD)A[k * 3 + r] * B[c * 3 + k]; NEAR(C[c * 3 + r], s, 1e-13L * m); } CHECK(C[9] == 5);
  V<double> U(in, 9); for (int i = 0; i < 9; ++i) U[i] = A[i]; U[1] = U[2] = U[5] = 0;
  nx_dmat3_mul_ua(C, U, B); for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) { LD s = 0; for (int k = 0; k < 3; ++k) s += (LD)U[k * 3 + r] * B[c * 3 + k]; NEAR(C[c * 3 + r], s, 1e-13L * m); }
  float Cf[17]; Cf[9] = 5; nx_smat3_mul(Cf, F, G); LD mf = magt(&F[0], 9) * magt(&G[0], 9); for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) { LD s = 0; for (int k = 0; k < 3; ++k) s += (LD)F[k * 3 + r] * G[c * 3 + k]; NEAR(Cf[c * 3 + r], s, 4e-6L * mf); } CHECK(Cf[9] == 5);
  Cf[16] = 5; nx_smat4_mul(Cf, F4, G4); mf = magt(&F4[0], 16) * magt(&G4[0], 16); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) { LD s = 0; for (int k = 0; k < 4; ++k) s += (LD)F4[k * 4 + r] * G4[c * 4 + k]; NEAR(Cf[c * 4 + r], s, 4e-6L * mf); } CHECK(Cf[16] == 5);
  double C4[16]; nx_dmat4_mul(C4, A4, B4); mf = magt(&A4[0], 16) * magt(&B4[0], 16); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) { LD s = 0; for (int k = 0; k < 4; ++k) s += (LD)A4[k * 4 + r] * B4[c * 4 + k]; NEAR(C4[c * 4 + r], s, 1e-13L * mf); }
  LD L[9]; for (int i = 0; i < 9; ++i) L[i] = A[i]; LD ma = mag(A, 9); NEAR(nx_dmat3_det(A), det3(L), 1e-13L * ma * ma * ma);
  v[2] = w[2] = 1; LD s = 0; for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) s += (LD)w[r] * A[c * 3 + r] * v[c]; NEAR(nx_dmat3_xptFx(A, v, w), s, 1e-12L * ma * mag(v, 3) * mag(w, 3));
  s = 0; for (int i = 0; i < 9; ++i) s += (LD)A[i] * A[i]; NEAR(nx_dmat3_frob_norm(A), sqrtl(s), 1e-12L * ma * 3);
  double D[9]; nx_dmat3_copy(D, A); nx_dmat3_sub(D, B); for (int i = 0; i < 9; ++i) NEAR(D[i], (LD)A[i] - B[i], 1e-13L * m);
  double t[3] = {v[0], v[1], v[2]}; nx_dmat3_transform(A, t); for (int r = 0; r < 3; ++r) NEAR(t[r], (LD)A[r] * v[0] + (LD)A[3 + r] * v[1] + (LD)A[6 + r] * v[2], 1e-13L * ma * mag(v, 3));
  inv3(A, [](double *i, double *M) { return (LD)nx_dmat3_inv(i, M); }, 1e-13L, 0); inv3(F, [](float *i, float *M) { return (LD)nx_smat3_inv(i, M); }, 2e-5L, 0); inv3(F, [](float *i, float *M) { return (LD)nx_sdmat3_inv(i, M); }, 2e-5L, 0);
  double E[16]; nx_dmat3_eye(E); for (int i = 0; i < 9; ++i) CHECK(E[i] == (i % 4 == 0)); nx_dmat3_set_zero(E); for (int i = 0; i < 9; ++i) CHECK(E[i] == 0); nx_dmat4_eye(E); for (int i = 0; i < 16; ++i) CHECK(E[i] == (i % 5 == 0));
  nx_smat3_set_zero(Cf); for (int i = 0; i < 9; ++i) CHECK(Cf[i] == 0); float S4[16]; nx_dmat4_to_s(S4, A4); for (int i = 0; i < 16; ++i) CHECK(S4[i] == (float)A4[i]);
  double M4[16]; for (int i = 0; i < 16; ++i) M4[i] = B4[i]; nx_dmat4_set_rotation(M4, A); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) CHECK(M4[c * 4 + r] == (r < 3 && c < 3 ? A[c * 3 + r] : B4[c * 4 + r]));
  for (int i = 0; i < 16; ++i) M4[i] = B4[i]; nx_dmat4_set_translation(M4, v); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) CHECK(M4[c * 4 + r] == (r < 3 && c == 3 ? v[r] : B4[c * 4 + r]));
  float h[4] = {F[0], F[1], F[2], F[3]}; float hr = nx_svec4h_to_euclidean(h); if (F[3] != 0 && fabs(F[3]) > 1e-3) { for (int i = 0; i < 3; ++i) NEAR(h[i], (LD)F[i] / F[3], 1e-6L * (1 + fabsl((LD)F[i] / F[3]))); CHECK(hr == F[3]); }
}
template <class T> static void guard(std::vector<T> &a, int n, const char *w) { for (size_t i = n; i < a.size(); ++i) CHECK(a[i] == (T)99, "%s wrote past the end", w); }
static void vecn(In &in) {
  int n = in.range(0, 40); std::vector<double> a(n + 2, 99), b(n + 2, 99), y; std::vector<float> f(n + 2, 99); std::vector<int> q(n + 2, 99); std::vector<uchar> u(n + 2, 99), w(n + 2, 99);
  for (int i = 0; i < n; ++i) { a[i] = in.f32(); b[i] = in.f32(); f[i] = in.f32(); q[i] = in.coin() ? (int)in.i32x() : in.range(-3, 3); u[i] = in.u8(); w[i] = in.u8(); }
  double s = in.f32(); LD ns = 0, nf = 0; for (int i = 0; i < n; ++i) { ns += (LD)a[i] * a[i]; nf += (LD)f[i] * f[i]; }
  NEAR(nx_dvec_norm_sq(n, a.data()), ns, 1e-12L * (1 + ns)); NEAR(nx_dvec_norm(n, a.data()), sqrtl(ns), 1e-12L * (1 + sqrtl(ns))); NEAR(nx_svec_norm_sq(n, f.data()), nf, 1e-5L * (1 + nf)); NEAR(nx_svec_norm(n, f.data()), sqrtl(nf), 1e-5L * (1 + sqrtl(nf)));
  y = b; nx_dvec_axpy(n, y.data(), s, a.data()); for (int i = 0; i < n; ++i) NEAR(y[i], b[i] + (LD)s * a[i], 1e-12L * (1 + fabsl((LD)s * a[i]) + fabsl((LD)b[i]))); guard(y, n, "axpy");
  y = b; nx_dvec_set(n, y.data(), s); for (int i = 0; i < n; ++i) CHECK(y[i] == s); guard(y, n, "set"); y = b; nx_dvec_set_zero(n, y.data()); for (int i = 0; i < n; ++i) CHECK(y[i] == 0); guard(y, n, "zero"); y = b; nx_dvec_copy(n, y.data(), a.data()); for (int i = 0; i < n; ++i) CHECK(y[i] == a[i]); guard(y, n, "copy");
  auto g = f; float l = nx_svec_to_unit(n, g.data()); NEAR(l, sqrtl(nf), 1e-5L * (1 + sqrtl(nf))); for (int i = 0; i < n; ++i) { if (nf > 1e-3L) NEAR(g[i], f[i] / sqrtl(nf), 1e-5L); else if (nf == 0) CHECK(g[i] == f[i]); } guard(g, n, "to_unit");
  LD ds = 0; for (int i = 0; i < n; ++i) ds += (u[i] - w[i]) * (u[i] - w[i]); CHECK(nx_ucvec_dist_sq(n, u.data(), w.data()) == ds);
  if (n) { int k = nx_svec_max_idx(n, f.data()); CHECK(k >= 0 && k < n); for (int i = 0; i < n; ++i) CHECK(f[i] <= f[k], "element %d is larger", i); CHECK(nx_svec_max_val(n, f.data()) == f[k]); k = nx_ivec_max_idx(n, q.data()); bool low = true; for (int i = 0; i < n; ++i) low = low && q[i] == INT32_MIN; if (low) CHECK(k == -1); else { CHECK(k >= 0 && k < n); for (int i = 0; i < n; ++i) CHECK(q[i] <= q[k], "element %d is larger", i); } }
  auto z = q; nx_ivec_set_zero(n, z.data()); for (int i = 0; i < n; ++i) CHECK(z[i] == 0); guard(z, n, "ivec zero"); g = f; nx_svec_set_zero(n, g.data()); for (int i = 0; i < n; ++i) CHECK(g[i] == 0); guard(g, n, "svec zero");
}
static void matn(In &in) {
  LiveBlocks live;
  int m = in.range(1, 9), n = in.range(1, 9), k = in.range(0, 7), lA = m + in.range(0, 2), lB = std::max(1, k + in.range(0, 2)), lC = m + in.range(0, 2);
  { V<double> A(in, lA * std::max(k, 1)), B(in, lB * n); std::vector<double> Cv(lC * n, 99); nx_dmat_mul(m, n, k, A, lA, B, lB, Cv.data(), lC);
    for (int c = 0; c < n; ++c) for (int r = 0; r < lC; ++r) { if (r >= m) { CHECK(Cv[c * lC + r] == 99); continue; } LD s = 0; for (int j = 0; j < k; ++j) s += (LD)A[j * lA + r] * B[c * lB + j]; NEAR(Cv[c * lC + r], s, 1e-11L * (1 + mag(A, A.a.size()) * mag(B, B.a.size()))); }
    nx_dmat_set(m, n, Cv.data(), lC, 3.5); for (int c = 0; c < n; ++c) for (int r = 0; r < lC; ++r) CHECK(Cv[c * lC + r] == (r < m ? 3.5 : 99)); nx_dmat_set_zero(m, n, Cv.data(), lC); for (int c = 0; c < n; ++c) for (int r = 0; r < lC; ++r) CHECK(Cv[c * lC + r] == (r < m ? 0 : 99));
    std::vector<double> T(m * n); for (auto &x : T) x = in.f64(); auto T0 = T; nx_dmat_transpose(m, n, T.data()); for (int r = 0; r < m; ++r) for (int c = 0; c < n; ++c) CHECK(T[r * n + c] == T0[c * m + r], "transpose of %dx%d at %d,%d", m, n, r, c);
    FILE *fp = tmpfile(); nx_dmat_xwrite(fp, m, n, T0.data()); rewind(fp); int m2 = -1, n2 = -1; double *R = nx_dmat_xread(fp, &m2, &n2); fclose(fp); CHECK(R && m2 == m && n2 == n, "read back %dx%d, wrote %dx%d", m2, n2, m, n); for (int i = 0; i < m * n; ++i) CHECK(R[i] == T0[i], "element %d read back differently", i); nx_free(R);
    int d = in.range(2, 3); double S[9], b[3], x[3]; for (int c = 0; c < d; ++c) for (int r = 0; r <= c; ++r) S[c * d + r] = S[r * d + c] = (r == c ? 20 : 0) + in.range(-4, 4); for (int i = 0; i < d; ++i) x[i] = in.range(-9, 9); for (int r = 0; r < d; ++r) { b[r] = 0; for (int c = 0; c < d; ++c) b[r] += S[c * d + r] * x[c]; }
    NXBool ok = d == 2 ? nx_dmat2_sym_solve_single(S, b) : nx_dmat3_sym_solve_single(S, b); CHECK(ok); for (int i = 0; i < d; ++i) NEAR(b[i], x[i], 1e-9L);
    V<double> W(in, 9); double Uu[9], Ss[3], Vt[9]; nx_dmat3_svd(W, Uu, Ss, Vt); CHECK(Ss[0] >= Ss[1] && Ss[1] >= Ss[2] && Ss[2] >= 0); for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) { LD s = 0, o = 0; for (int j = 0; j < 3; ++j) { s += (LD)Uu[j * 3 + r] * Ss[j] * Vt[c * 3 + j]; o += (LD)Uu[r * 3 + j] * Uu[c * 3 + j]; } NEAR(s, W[c * 3 + r], 1e-10L * mag(W, 9)); NEAR(o, r == c, 1e-10L); }
  }
  CHECK(live.now() <= 0, "leaks %ld blocks", live.now());
}
ENTRY { In in(data, size); switch (in.pick(4)) { case 0: vec3(in); break; case 1: mat3(in); break; case 2: vecn(in); break; default: matn(in); } return 0; }
