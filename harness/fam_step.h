// Model of one internal step of the variable-order methods, and its conformance to the steps the
// solver really takes.  An event function that never changes sign is called after every internal
// step; it records the interpolating polynomials (CVodeGetDky, CVodeGetSensDky1), the order, the step,
// the weights and the estimated local errors.  Every recorded step is then compared with the model.
#pragma once
#include <deque>
#include <array>
namespace stp {
typedef std::vector<ld> V; typedef std::vector<V> VV;
struct Rec { double t, h; int q; long nst, fails, errs, conv, nor; VV D; V W; std::vector<double> ele; };   // D[component][derivative]; components: state, then each sensitivity
static std::vector<Rec> R; static long g_cnt[16];
static int NC() { return C->n * (1 + (g_mode ? ns() : 0)); }
static long fails(void *m) { long a = 0, b = 0, c = 0, d = 0; CVodeGetNumErrTestFails(m, &a); CVodeGetNumNonlinSolvConvFails(m, &b); if (g_mode) { CVodeGetSensNumErrTestFails(m, &c); CVodeGetSensNumNonlinSolvConvFails(m, &d); } return a + b + c + d; }
static bool rec(void *m, Rec &r, int q) {
  int n = C->n, S = g_mode ? ns() : 0; r.D.assign(NC(), V(q + 1)); r.W.assign(NC(), 0); r.ele.assign(n, 0); N_Vector v = N_VNew_Serial(n, ctx());
  for (int k = 0; k <= q; k++) { int rc = CVodeGetDky(m, r.t, k, v); need(rc == 0, fmt("CVodeGetDky(%d) fails (%d)", k, rc)); for (int i = 0; i < n; i++) r.D[i][k] = NV_DATA_S(v)[i]; for (int s = 0; s < S; s++) { rc = CVodeGetSensDky1(m, r.t, k, s, v); need(rc == 0, fmt("CVodeGetSensDky1(%d) fails (%d)", k, rc)); for (int i = 0; i < n; i++) r.D[n * (1 + s) + i][k] = NV_DATA_S(v)[i]; } }
  need(CVodeGetErrWeights(m, v) == 0, "CVodeGetErrWeights fails"); for (int i = 0; i < n; i++) r.W[i] = NV_DATA_S(v)[i]; need(CVodeGetEstLocalErrors(m, v) == 0, "CVodeGetEstLocalErrors fails"); for (int i = 0; i < n; i++) r.ele[i] = NV_DATA_S(v)[i]; N_VDestroy(v);
  if (S) { N_Vector *w = N_VCloneVectorArray(S, v = N_VNew_Serial(n, ctx())); need(CVodeGetSensErrWeights(m, w) == 0, "CVodeGetSensErrWeights fails"); for (int s = 0; s < S; s++) for (int i = 0; i < n; i++) r.W[n * (1 + s) + i] = NV_DATA_S(w[s])[i]; N_VDestroyVectorArray(w, S); N_VDestroy(v); }
  return true; }
static int hook(realtype, N_Vector, realtype *g, void *) { g[0] = 1; void *m = O.mem; long n; if (!m || CVodeGetNumSteps(m, &n) || (R.size() && R.back().nst == n)) return 0;
  Rec r; r.nst = n; CVodeGetCurrentTime(m, &r.t); long ea = 0, eb = 0; CVodeGetNumErrTestFails(m, &ea); if (g_mode) CVodeGetSensNumErrTestFails(m, &eb); r.fails = fails(m); r.errs = ea + eb; r.conv = r.fails - r.errs; r.nor = 0; CVodeGetNumStabLimOrderReds(m, &r.nor); r.h = 0; r.q = 1; if (n) { CVodeGetLastStep(m, &r.h); CVodeGetLastOrder(m, &r.q); rec(m, r, r.q); } R.push_back(r); return 0; }
static void install(void *m) { R.clear(); OK(CVodeRootInit(m, 1, hook)); OK(CVodeSetNoInactiveRootWarn(m)); }
// right-hand side and, along the sensitivities, its derivative
static V slope(double t, const V &y) {
  int n = C->n, S = g_mode ? ns() : 0, np = C->p.size(); Du::k = S; Vd Y(n), F(n, Du(0)), P; for (double v : C->p) P.push_back(Du(v)); for (int i = 0; i < n; i++) { Y[i] = Du(y[i]); for (int s = 0; s < S; s++) Y[i].d[s] = y[n * (1 + s) + i]; } if (g_mode == 2) for (int s = 0; s < S; s++) P[s].d[s] = 1;
  auto K = [&](int i) { return (ld)C->k[i]; }; auto pi = [&](int i) -> Du & { return P[i % np]; };
  switch (C->pr) {
  case 20: for (int i = 0; i < n; i++) F[i] = (K(i) * cosl(K(i) * t)) * (pi(i) * Y[i]); break;
  case 21: for (int i = 0; i < n; i++) for (int j = 0; j < np; j++) F[i] = F[i] + (K(j) * cosl(K(j) * t + i + 1)) * P[j]; break;
  case 22: for (int i = 0; i < n; i++) { long z = (long)floor(t / C->k[0]) + i + 1; ld c = K(1) * ((1 - 2 * (((z % 2) + 2) % 2)) + cosl(K(3) * t)); F[i] = c * pi(i) - K(2) * Y[i]; } break;
  case 23: { Du s(0); for (auto &x : Y) s = s + x; for (int i = 0; i < n; i++) F[i] = (-K(i)) * (Y[i] - (2.L / n) * s - sinl(t + i + 1) * pi(i)) + cosl(t + i + 1) * pi(i); s = Du(0); for (auto &x : F) s = s + x; for (auto &x : F) x = x - (2.L / n) * s; } break;
  case 24: for (int i = 0; i < n; i++) { ld sg = (i + 1) % 2 ? 1 : -1, c = sg * (1.5L + 0.5L * sinl(t + i + 1)); Du z = c * pi(i); F[i] = (-K(i)) * (Y[i] * Y[i] * Y[i] - z * z * z) + (sg * 0.5L * cosl(t + i + 1)) * pi(i); } break;
  case 25: for (int i = 0; i < n; i++) { Du s = i % 2 ? Y[i] - 0.9L * Y[i - 1] : Y[i]; F[i] = (-K(i)) * (s - sinl(t + i + 1) * pi(i)) + cosl(t + i + 1) * pi(i); if (i % 2) F[i] = F[i] + 0.9L * F[i - 1]; } break;
  case 27: for (int i = n - 1; i >= 0; i--) { bool b = i % 2 == 0 && i + 1 < n; Du s = b ? Y[i] - 0.9L * Y[i + 1] : Y[i]; F[i] = (-K(i)) * (s - sinl(t + i + 1) * pi(i)) + cosl(t + i + 1) * pi(i); if (b) F[i] = F[i] + 0.9L * F[i + 1]; } break;
  case 29: for (int i = 0; i < n; i++) { int q = i % 2 ? i - 1 : i + 1 < n ? i + 1 : -1; F[i] = (-K(0)) * (Y[i] - sinl(t + i + 1) * pi(i)) + cosl(t + i + 1) * pi(i); if (q >= 0) F[i] = F[i] + ((i % 2 ? -1 : 1) * K(1)) * (Y[q] - sinl(t + q + 1) * pi(q)); } break;
  default: { Prob Q; Q.pr = C->pr; Q.n = n; Q.p = P; rhs(Q, t, Y, F); } }
  V f(n * (1 + S)); for (int i = 0; i < n; i++) { f[i] = F[i].v; for (int s = 0; s < S; s++) f[n * (1 + s) + i] = F[i].d[s]; } return f; }
static ld ev(const V &D, ld x, int d, ld *mag = nullptr) { ld s = 0, f = 1, a = 0; for (size_t k = d; k < D.size(); k++) { s += D[k] * f; a += fabsl(D[k] * f); f *= x / (ld)(k - d + 1); } if (mag) *mag += a; return s; }
static V solve_small(std::vector<V> A, V b) { int n = b.size(); for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i; std::swap(A[k], A[p]); std::swap(b[k], b[p]); for (int i = k + 1; i < n; i++) { ld f = A[i][k] / A[k][k]; for (int j = k; j < n; j++) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; } } for (int k = n - 1; k >= 0; k--) { for (int j = k + 1; j < n; j++) b[k] -= A[k][j] * b[j]; b[k] /= A[k][k]; } return b; }
// integral of x^e prod (1 + x / xi_i), i = a..b, from -1 to 0
static ld integ(const V &xi, int b, int e) { V m(1, 1.L); for (int i = 1; i <= b; i++) { m.push_back(0); for (size_t j = m.size() - 1; j >= 1; j--) m[j] += m[j - 1] / xi[i]; } ld s = 0; for (size_t j = 0; j < m.size(); j++) { ld p = j + e + 1; s += m[j] * ((j + e) % 2 ? -1 : 1) / p; } return s; }
struct Co { ld l1, e, e5, lo, hi; };      // slope of the correction; error constants at order q, for the change of it, at q - 1, at q + 1
static Co coef(bool bdf, int q, const V &xi) {          // xi[i] = (t_n - t_{n-i}) / h, i = 1 .. q + 1
  Co c; if (bdf) { ld a = 0, ah = 0, pr = 1; for (int j = 1; j <= q; j++) { a -= 1.L / j; ah -= 1 / xi[j]; pr *= xi[j]; } ld A1 = 1 - ah + a, A2 = 1 + q * A1; c.l1 = -a; c.e = fabsl(A1 / (a * A2)); c.e5 = fabsl(A2) * pr;
    ld a2 = a - 1.L / (q + 1), B = 1 - (ah - 1 / xi[q + 1]) + a2; c.hi = fabsl(B / A2 * xi[q + 1] / ((q + 2) * a2));
    ld a0 = a + 1.L / q, ah0 = ah + 1 / xi[q], p0 = pr / xi[q]; c.lo = q > 1 ? fabsl((1 - ah0 + a0) / a0) * p0 : 1; return c; }
  ld M0 = integ(xi, q - 1, 0), pr = 1; for (int j = 1; j < q; j++) pr *= xi[j]; c.l1 = 1 / M0; c.e = q == 1 ? 0.5L : fabsl(integ(xi, q - 1, 1)) / M0 / xi[q]; c.e5 = q == 1 ? 1 : q * M0 * pr * xi[q]; c.hi = fabsl(integ(xi, q, 1)) / M0 / (q + 1);
  if (q > 1) { ld p0 = pr / xi[q - 1]; c.lo = q * fabsl(integ(xi, q - 2, 1)) * p0; } else c.lo = 1; return c; }
// characteristic-root estimate from five rows of squared scaled derivatives of orders q-1, q, q+1 (Hindmarsh 1992); > 3: stability limit
typedef std::array<ld, 3> Row;
static int sl_detect(const std::deque<Row> &s, int q) {       // s[0] the newest
  const ld tiny = 1e-10L; ld big[3], mean[3], var[3], c[3][5];      // quartic c[0] + c[1] r + c[3] r^3 + c[4] r^4
  for (int k = 0; k < 3; k++) { ld lo = s[0][k], hi = 0; for (int i = 0; i < 5; i++) { lo = std::min(lo, s[i][k]); hi = std::max(hi, s[i][k]); } if (lo < tiny * hi) return -1; big[k] = hi; ld m1 = 0, m2 = 0; for (int i = 0; i < 4; i++) { ld r = s[i][k] / s[i + 1][k]; m1 += r / 4; m2 += r * r / 4; } mean[k] = m1; var[k] = fabsl(m2 - m1 * m1);
    auto S = [&](int i) { return s[i][k]; }; c[k][0] = S(0) * S(2) - S(1) * S(1); c[k][1] = S(1) * S(2) - S(0) * S(3); c[k][2] = 0; c[k][3] = S(1) * S(4) - S(2) * S(3); c[k][4] = S(3) * S(3) - S(2) * S(4); }
  ld vlo = std::min(var[0], std::min(var[1], var[2])), vhi = std::max(var[0], std::max(var[1], var[2])), r; int flag;
  auto res = [&](ld x, int k) { return fabsl(c[k][0] + x * (c[k][1] + x * x * (c[k][3] + x * c[k][4]))) / (big[k] * big[k]); }; auto worst = [&](ld x) { return std::max(res(x, 0), std::max(res(x, 1), res(x, 2))); };
  if (vlo < 1e-8L) { if (vhi > 25e-8L) return -2; r = (mean[0] + mean[1] + mean[2]) / 3; for (int k = 0; k < 3; k++) if (fabsl(mean[k] - r) > 5e-4L) return -3; flag = 4; }
  else { ld a[3][5]; memcpy(a, c, sizeof a); auto drop = [&](int x, int y, int e) { ld f = a[x][e] / a[y][e]; for (int j = 0; j < 5; j++) a[x][j] -= f * a[y][j]; };
    if (fabsl(c[0][4]) < tiny * big[0] * big[0]) return -4; drop(1, 0, 4); drop(2, 0, 4); if (fabsl(a[1][3]) < tiny * big[1] * big[1]) return -4; drop(2, 1, 3); if (fabsl(a[2][1]) < tiny * big[2] * big[2]) return -4; r = -a[2][0] / a[2][1]; if (r < tiny || r > 100) return -5;
    if (worst(r) < 1e-3L) flag = 5; else { flag = -6; for (int it = 0; it < 3 && flag < 0; it++) { ld best = 0, bw = 0; for (int k = 0; k < 3; k++) { ld f = c[k][0] + r * (c[k][1] + r * r * (c[k][3] + r * c[k][4])), d = c[k][1] + r * r * (3 * c[k][3] + 4 * r * c[k][4]), x = fabsl(d) > tiny * big[k] * big[k] ? r - f / d : r, w = worst(x); if (k == 0 || w < bw) { best = x; bw = w; } } r = best; if (bw < 1e-3L) flag = 6; } if (flag < 0) return flag; } }
  ld sig[3]; for (int k = 0; k < 3; k++) { ld a = s[0][k], b = s[1][k] * r, d = s[2][k] * r * r, e = s[3][k] * r * r * r, m = b - d; if (fabsl(m) < tiny * big[k]) return -7; ld x = -(a - 3 * b + 3 * d - e) / m; if (x < tiny || x > 4) return -7; sig[k] = s[2][k] + (b - 2 * d + e) / x / (r * r); }
  if (sig[1] < tiny) return -8; ld up = sig[2] / sig[1], dn = sig[0] / sig[1], b = up * dn - 1 - (q * q - 1) / 4.L * up, t = 1 - 2.L / (q - 1) * b; if (fabsl(t) < tiny) return -8; if (fabsl(1 / t - r) > 0.01L) return -9; return r > 0.98L ? flag : flag - 3; }
struct Want { int q; ld lo, hi; };
struct Lim { int qmax = 0; double hmax = 0; bool errcon = true; double coef = 0.1, stop = NAN; bool est = true, h0 = true, stab = false; } L;
static double g_dev[8]; static const ld FAR = 1e-13L, TINYW = 1e-6L;   // allowed deviation, in units of the tolerance
static void dev(int w, ld x) { if (x > g_dev[w]) g_dev[w] = x; }
static const char *DN[] = {"past values", "slope relation", "residual", "local error estimate", "weights", "output", "order and step"};
static void judge(const Case &c) {
  M->say("%zu steps of %s observed", R.size() ? R.size() - 1 : 0, c.method == 100 ? "BDF" : "ADAMS"); need(R.size() >= 2, "no step was observed"); if (R.size() < 2) return; bool bdf = c.method == 100; int n = c.n, nc = NC(), N = R.size() - 1, QM = L.qmax ? L.qmax : bdf ? 5 : 12; int dir = O.dir;
  { Rec &r = R[0]; need(r.nst == 0 && r.t == c.t0, "the first call of the event function is not at the start"); r.D.assign(nc, V(2)); r.W.assign(nc, 0); V y(nc); for (int i = 0; i < n; i++) y[i] = c.y0[i]; if (g_mode == 1) for (int s = 0; s < n; s++) y[n * (1 + s) + s] = 1; V f = slope(c.t0, y); for (int i = 0; i < nc; i++) { r.D[i][0] = y[i]; r.D[i][1] = f[i]; } }
  std::vector<Want> want; bool known = false; int qw = 2; V Dl(nc), Dp(nc); ld e5p = 0; int acn = -1, oldq = 1; V Del(nc); std::deque<Row> sd; int nsc = 0; ld el = 0, eh = 0; bool ek = false;
  auto bad = [&](int k, const std::string &w) { M->bad(fmt("step %d (to t = %.17g, h = %.9g, order %d): %s", k, R[k].t, R[k].h, R[k].q, w.c_str())); };
  for (int k = 1; k <= N; k++) { Rec &r = R[k], &p = R[k - 1]; int q = r.q; g_cnt[q]++; ld h = r.h; ++*g_checks;
    if (r.nst != k) { bad(k, fmt("it is step %ld", r.nst)); return; } if (!(h * dir > 0) || !(fabs(p.t + r.h - r.t) <= 1e-14 * (fabs(r.t) + fabs(r.h)))) { bad(k, fmt("the last step does not lead from %.17g", p.t)); return; }
    if (q < 1 || q > QM || q > k) { bad(k, "no such order yet"); return; } long fl = r.fails - p.fails; if (!fl ? abs(q - oldq) > 1 : (q > oldq + 1 || q < oldq - 1 - (int)fl)) { bad(k, fmt("the order was %d", oldq)); return; }
    V dt(k + 1), xi(q + 2, 0); for (int i = 1; i <= k && i <= q + 2; i++) { dt[i] = dt[i - 1] - R[k - i + 1].h; if (i <= q + 1) xi[i] = -dt[i] / h; } for (int i = 1; i <= q + 1; i++) if (xi[i] == 0) xi[i] = xi[i - 1] + 1;
    Co co = coef(bdf, q, xi); ld yW = 0;
    // the predictor
    VV Pr(nc); V noise(nc); ld amp = 1; for (int i = 1; i <= q + 1 && i < k; i++) amp = std::max(amp, fabsl(h / R[k - i].h)); ld ampq = 1; for (int i = 0; i < q; i++) ampq *= std::max<ld>(amp, 1);
    for (int i = 0; i < nc; i++) { const V &Q = p.D[i]; V &z = Pr[i]; int qo = (int)Q.size() - 1;
      if (q == qo || k == 1) z = Q;
      else if (q > qo && !bdf) { z = Q; z.resize(q + 1, 0); }
      else if (q > 1 || (q == 1 && qo > 1)) { std::vector<V> A; V b; for (int j = 1; j <= q; j++) { ld x = (dt[j] - dt[1]) / h; V a(q + 1), d(q + 1); ld f = 1, g = 1; for (int m = 0; m <= q; m++) { a[m] = f; f *= x; d[m] = m ? m * g : 0; if (m) g *= x; } if (bdf || j == 1) { A.push_back(a); b.push_back(j == 1 ? Q[0] : ev(R[k - j].D[i], 0, 0)); } if (!bdf || j == 1) { A.push_back(d); b.push_back(h * R[k - j].D[i][1]); } } z = solve_small(A, b); ld f = 1; for (int m = 0; m <= q; m++) { z[m] *= f; f *= (m + 1) / h; } }
      noise[i] = 0; ev(z, h, 0, &noise[i]); for (int j = 1; j <= std::min(q, k); j++) noise[i] += fabsl(R[k - j].D[i][0]) + fabsl(h * R[k - j].D[i][1]); noise[i] = noise[i] * ampq * 4e-16L + 1e-300L; }
    // what the new polynomial must interpolate
    for (int i = 0; i < nc; i++) { const V &D = r.D[i]; ld w = r.W[i]; if (bdf) for (int j = 1; j < q; j++) { ld mg = 0, d = ev(D, dt[j], 0, &mg) - R[k - j].D[i][0]; mg = FAR * mg + 20 * noise[i]; dev(0, w * std::max<ld>(0, fabsl(d) - mg)); if (w * (fabsl(d) - mg) > TINYW) { bad(k, fmt("component %d: the interpolant of BDF order %d differs from the solution %d steps before by %.6Lg (%.6Lg of the tolerance)", i, q, j, d, w * d)); return; } }
      else { ld d = ev(D, dt[1], 0) - p.D[i][0]; dev(0, w * std::max<ld>(0, fabsl(d) - 20 * noise[i])); if (w * (fabsl(d) - 20 * noise[i]) > TINYW) { bad(k, fmt("component %d: the interpolant of the Adams formula of order %d differs from the solution one step before by %.6Lg (%.6Lg of the tolerance)", i, q, d, w * d)); return; } for (int j = 1; j < q; j++) { ld mg = 0; d = h * (ev(D, dt[j], 1, &mg) - R[k - j].D[i][1]); mg = FAR * fabsl(h) * mg + 20 * noise[i]; dev(0, w * std::max<ld>(0, fabsl(d) - mg)); if (w * (fabsl(d) - mg) > TINYW) { bad(k, fmt("component %d: the interpolant of the Adams formula of order %d differs in slope from the solution %d steps before by %.6Lg (%.6Lg of the tolerance)", i, q, j, d / h, w * d)); return; } } }
      if (i < n || L.errcon) yW = std::max(yW, fabsl(D[0] * w));
      // slope and correction of BDF, and the size of the correction
      Del[i] = D[0] - ev(Pr[i], h, 0); ld s = h * D[1] - h * ev(Pr[i], h, 1) - co.l1 * Del[i]; bool reload = fl >= 4 && q == 1; if (!reload) { dev(1, w * std::max<ld>(0, fabsl(s) - 40 * noise[i])); if (w * (fabsl(s) - 40 * noise[i]) > TINYW) { bad(k, fmt("component %d: value %.17Lg and slope %.17Lg do not satisfy the formula of order %d (defect %.6Lg, %.6Lg of the tolerance)", i, D[0], D[1], q, s, w * s)); return; } } }
    // the implicit equation is solved to a fraction of the tolerance
    { V y(nc); for (int i = 0; i < nc; i++) y[i] = r.D[i][0]; V f = slope(r.t, y); ld gam = h / co.l1; std::vector<double> J(n * n), yy(n); for (int i = 0; i < n; i++) yy[i] = y[i]; jac_of(c, r.t, yy.data(), J.data()); std::vector<V> A(n, V(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i][j] = (i == j) - gam * J[i + j * n];
      for (int s = 0; s < nc / n; s++) { V b(n); for (int i = 0; i < n; i++) b[i] = (h * f[n * s + i] - h * r.D[n * s + i][1]) / co.l1; b = solve_small(A, b); ld z = 0; for (int i = 0; i < n; i++) { ld w = r.W[n * s + i], e = std::max<ld>(0, fabsl(b[i]) - 40 * noise[n * s + i]) * w; z += e * e; } z = sqrtl(z / n) * co.e / L.coef; if (s == 0 || L.errcon) { dev(2, z); if (z > (L.coef < 0.05 ? 80 : 25) * (c.rtol > 5e-3 ? 12 : 1)) { bad(k, fmt("the implicit equation of %s is left with an error of %.6Lg of what the convergence test allows", s ? fmt("sensitivity %d", s).c_str() : "the state", z)); return; } } } }
    // the estimate of the local error
    ld dsm = 0, dns = 0; for (int s = 0; s < nc / n; s++) { ld z = 0, m = 0; for (int i = 0; i < n; i++) { ld w = r.W[n * s + i], d = co.e * Del[n * s + i]; if (!s) { ld g = fabsl(d - r.ele[i]); dev(3, std::max<ld>(0, w * (g - 20 * noise[i]))); if (w * (g - 20 * noise[i]) > TINYW) { bad(k, fmt("component %d: the estimated local error is %.9g, order %d gives %.9Lg (%.6Lg of the tolerance)", i, r.ele[i], q, d, w * (r.ele[i] - d))); return; } } z += d * d * w * w; m = std::max(m, 20 * co.e * noise[n * s + i] * w); } z = sqrtl(z / n); if (s == 0 || L.errcon) { dsm = std::max(dsm, z); dns = std::max(dns, m); if (z - m > 1 + 1e-6L) { bad(k, fmt("the estimated local error of %s is %.9Lg times the tolerance, and yet the step is accepted", s ? fmt("sensitivity %d", s).c_str() : "the state", z)); return; } } }
    // the weights
    for (int i = 0; i < n; i++) { ld w = 1 / (c.rtol * fabsl(p.D[i][0]) + c.atol); dev(4, fabsl(r.W[i] / w - 1)); if (fabsl(r.W[i] / w - 1) > 1e-10L) { bad(k, fmt("component %d: the weight is %.12Lg instead of %.12Lg", i, r.W[i], w)); return; } }
    // order and step follow what the step before asked for
    if (L.est && known) { bool ok = false; for (auto &w : want) { if (!fl && q == w.q && fabsl(h / p.h) >= w.lo * (1 - 1e-6L) && fabsl(h / p.h) <= w.hi * (1 + 1e-6L)) ok = true; if (fl && (q == w.q || (fl > 3 && q < w.q))) { long e = r.errs - p.errs, cf = r.conv - p.conv; ld lo = w.lo, hi = w.hi; for (int j = 0; j < cf; j++) { lo *= 0.25L; hi *= 0.25L; } for (int j = 0; j < e; j++) { lo *= 0.1L; hi *= j && !g_mode && !cf ? 0.2L : std::max(0.1L, powl(1 / 6.L, 1.L / (w.q + 1))); } ++g_cnt[0]; if (fabsl(h / p.h) >= lo * (1 - 1e-6L) && fabsl(h / p.h) <= hi * (1 + 1e-6L)) ok = true; } }
      if (!ok) { std::string s; for (auto &w : want) s += fmt(" order %d, %.9Lg to %.9Lg times the last step;", w.q, w.lo, w.hi); bad(k, fmt("order %d with %.9Lg times the last step (%ld failures); the estimates of the last step ask for%s", q, h / p.h, fl, s.c_str())); return; } ++*g_checks; }
    // the first step
    if (k == 1 && L.h0 && !fl) { const ld u = 2.220446049250313e-16L; ld T = c.ts[0], td = fabsl(T - c.t0), lb = 100 * u * std::max(fabsl((ld)c.t0), fabsl(T)), hb = 0; for (int i = 0; i < nc; i++) if (i < n || L.errcon) hb = std::max(hb, fabsl(p.D[i][1]) / (0.1L * fabsl(p.D[i][0]) + 1 / r.W[i])); ld ub = 0.1L * td; if (ub * hb > 1) ub = 1 / hb; ld g = sqrtl(lb * ub), hn = g;
      auto ydd = [&](ld x) { V y(nc); for (int i = 0; i < nc; i++) y[i] = p.D[i][0] + x * dir * p.D[i][1]; V f = slope(c.t0 + (double)(x * dir), y); ld z = 0; for (int s = 0; s < nc / n; s++) if (!s || L.errcon) { ld e = 0; for (int i = 0; i < n; i++) { ld d = (f[n * s + i] - p.D[n * s + i][1]) / x * r.W[n * s + i]; e += d * d; } z = std::max(z, sqrtl(e / n)); } return z; };
      if (ub >= lb) { for (int j = 1; j <= 4; j++) { ld z = ydd(g); hn = z * ub * ub > 2 ? sqrtl(2 / z) : sqrtl(g * ub); if (j == 4) break; ld rt = hn / g; if (rt > 0.5L && rt < 2) break; if (j > 1 && rt > 2) { hn = g; break; } g = hn; } hn = std::min(std::max(0.5L * hn, lb), ub); } if (L.hmax > 0) hn = std::min<ld>(hn, L.hmax); dev(6, std::max(hn / fabsl(h), fabsl(h) / hn)); if (getenv("FZ_H0")) fprintf(stderr, "H0 %.9Lg %.9Lg\n", hn, fabsl(h)); if (!(hn / fabsl(h) < 1.05L && fabsl(h) / hn < 1.05L)) { bad(k, fmt("the first step is %.9Lg, the second derivative at the start calls for %.9Lg", h, hn)); return; } }
    // what this step asks for
    if (q != oldq) { qw = q + 1; } if (fl > 3 && q == 1) qw = -1000; oldq = q; qw--; bool sv = qw == 1; want.clear(); known = true; ld etamx = k == 1 && !fl ? 1e4L : 10;
    auto eta = [](ld b, ld x, ld p) { return 1 / (powl(b * std::max<ld>(x, 0), 1 / p) + 1e-6L); }; auto put = [&](int qq, ld a, ld b) { if (a < 1.5L * (1 + 1e-9L)) want.push_back({q, 1, 1}); if (b >= 1.5L * (1 - 1e-9L)) { a = std::min(std::max(a, 1.5L * (1 - 1e-9L)), etamx); b = std::min(b, etamx); if (L.hmax > 0) { a /= std::max<ld>(1, fabsl(h) / L.hmax * a); b /= std::max<ld>(1, fabsl(h) / L.hmax * b); } want.push_back({qq, a, b}); if (a <= 1 + 1e-9L) want.push_back({q, 1, 1}); } };
    if (fl) { want.push_back({q, 1, 1}); if (qw < -100) known = false; else qw = std::max(qw, 2); }
    else if (qw < -100) known = false;
    else { ld lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0}; lo[1] = eta(6, dsm + dns + dsm * 1e-9L, q + 1); hi[1] = eta(6, dsm - dns - dsm * 1e-9L, q + 1);
      if (qw != 0) put(q, lo[1], hi[1]);
      else { qw = 2; if (q > 1) { ld x = 0, m = 0; for (int s = 0; s < nc / n; s++) if (!s || L.errcon) { ld z = 0; ld f = 1; for (int i = 1; i <= q; i++) f *= h / i; for (int i = 0; i < n; i++) { ld w = r.W[n * s + i], d = f * r.D[n * s + i][q]; z += d * d * w * w; m = std::max(m, 20 * noise[n * s + i] * w * co.lo); } x = std::max(x, sqrtl(z / n) * co.lo); } lo[0] = eta(6, x + m + x * 1e-9L, q); hi[0] = eta(6, x - m - x * 1e-9L, q); } el = lo[0]; eh = hi[0]; ek = true;
        if (q < QM) { if (acn != k - 1) known = false; ld cq = co.e5 / e5p; for (int i = 0; i <= q; i++) cq *= h / p.h; ld x = 0, m = 0; for (int s = 0; s < nc / n; s++) if (!s || L.errcon) { ld z = 0; for (int i = 0; i < n; i++) { ld w = r.W[n * s + i], d = Del[n * s + i] - cq * Dp[n * s + i]; z += d * d * w * w; m = std::max(m, 20 * (1 + fabsl(cq)) * noise[n * s + i] * w * co.hi); } x = std::max(x, sqrtl(z / n) * co.hi); } lo[2] = eta(10, x + m + x * 1e-9L, q + 2); hi[2] = eta(10, x - m - x * 1e-9L, q + 2); }
        ld top = std::max(lo[1], std::max(lo[0], lo[2])); for (int o : {1, 0, 2}) if (hi[o] >= top * (1 - 1e-9L) && hi[o] > 0) put(q + o - 1, std::max(lo[o], top * (1 - 1e-9L)), hi[o]); } }
    // stability limit detection
    { nsc = k == 1 || fl || r.h != p.h || q != p.q ? 1 : nsc + 1; long red = r.nor - p.nor; if (!L.stab || !bdf) { if (red) { bad(k, "the order is reduced for stability although that was not asked for"); return; } }
      else { if (q >= 3) { ld f = 1, z[3] = {0, 0, 0}; for (int i = 1; i < q; i++) f *= i; for (int i = 0; i < n; i++) { ld w = r.W[i], a = r.D[i][q - 1] * w, b = r.D[i][q] * w, d = r.ele[i] / co.e * w; for (int j = 1; j < q; j++) a *= h / j; for (int j = 1; j <= q; j++) b *= h / j; z[0] += a * a / n; z[1] += b * b / n; z[2] += d * d / n; } Row w = {f * f * z[0], f * f * q * q * z[1], f * f * q * q * (q + 1) * (q + 1) * z[2] / (co.e5 * co.e5)}; sd.push_front(w); if (sd.size() > 5) sd.pop_back(); }
        bool lower = false, stay = false; for (auto &w : want) (w.q < q ? lower : stay) = true; if (!known) stay = true; bool sure = false, may = false;
        if (q >= 3 && nsc >= q + 5 && stay) { ++*g_checks; ++g_cnt[13]; bool base = sl_detect(sd, q) > 3, other = false;
          if (base != (red != 0)) { uint64_t z = 12345; for (int v = 0; v < 1000 && !other; v++) { auto s = sd; ld f = 1e-10L * powl(10, -(v % 7)); for (auto &x : s) for (ld &y : x) { z = z * 6364136223846793005ull + 1442695040888963407ull; y *= 1 + f * ((ld)(int64_t)z / 9.2e18L); } other = (sl_detect(s, q) > 3) != base; } }   // the outcome may hang on rounding
          may = base || other; sure = base && !other && !lower && known; }
        if (red ? !may : sure) { bad(k, red ? "the order is reduced for stability, and the last five steps show no instability" : "the last five steps show that the step is limited by stability, and the order is not reduced"); return; } if (red < 0 || red > 1) { bad(k, "the number of reductions for stability is wrong"); return; }
        if (red) { ++g_cnt[14]; want.clear(); if (!ek) known = false; ld a = std::min(el, etamx), b = std::min(eh, etamx); if (L.hmax > 0) { a /= std::max<ld>(1, fabsl(h) / L.hmax * a); b /= std::max<ld>(1, fabsl(h) / L.hmax * b); } want.push_back({q - 1, a, b}); } } }
    if (getenv("FZ_STEPS")) { std::string z; for (auto &w : want) z += fmt(" q%d %.6Lg..%.6Lg", w.q, w.lo, w.hi); fprintf(stderr, "%d q %d h %.9g fl %ld qw %d dsm %.4Lg dns %.4Lg known %d want%s\n", k, q, h + 0.0L == 0 ? 0. : (double)h, fl, qw, dsm, dns, known, z.c_str()); }
    if (sv && q < QM) { Dp = Del; e5p = co.e5; acn = k; }
  }
}
// the outputs come from the polynomials of the steps that reached them
static void outs_match(const std::vector<double> &X) { if (R.size() < 2) return; int n = C->n, S = g_mode ? ns() : 0; size_t x = 0; for (size_t o = 0; o < C->ts.size(); o++) { double T = C->ts[o]; size_t k = 1; while (k + 1 < R.size() && (R[k].t - T) * O.dir < 0) k++; Rec &r = R[k]; if ((r.t - T) * O.dir < 0) { M->bad(fmt("no step reaches the output time %.17g (the last one ends at %.17g)", T, r.t)); return; }
    for (int i = 0; i < n; i++) for (int s = -1; s < S; s++) { ++*g_checks; ld mag = 0, z = ev(r.D[n * (1 + s) + i], (ld)T - r.t, 0, &mag), w = r.W[n * (1 + s) + i]; ld d = fabsl(X[x++] - z); dev(5, w * std::max<ld>(0, d - 1e-14L * mag)); if (w * (d - 1e-14L * mag) > TINYW || !(d < INFINITY)) { M->bad(fmt("output at t = %.17g, component %d, %s: %.17g, the interpolant of the step to %.17g gives %.17Lg", T, i, s < 0 ? "value" : fmt("derivative %d", s).c_str(), X[x - 1], r.t, z)); return; } } } }
}
