// Reference ODE solver: Gragg-Bulirsch-Stoer extrapolation in long double with
// forward sensitivities; the right-hand sides mirror ode.F90.
#pragma once
#include "fz.h"
typedef long double ld;
static const int MD = 42;
struct Du {           // value and derivatives
  ld v, d[MD]; static int k;
  Du() : Du(0.L) {} Du(ld x) : v(x) { for (int i = 0; i < k; i++) d[i] = 0; }
  Du(const Du &o) : v(o.v) { for (int i = 0; i < k; i++) d[i] = o.d[i]; }
  Du &operator=(const Du &o) { v = o.v; for (int i = 0; i < k; i++) d[i] = o.d[i]; return *this; }
};
inline Du operator+(const Du &a, const Du &b) { Du r; r.v = a.v + b.v; for (int i = 0; i < Du::k; i++) r.d[i] = a.d[i] + b.d[i]; return r; }
inline Du operator-(const Du &a, const Du &b) { Du r; r.v = a.v - b.v; for (int i = 0; i < Du::k; i++) r.d[i] = a.d[i] - b.d[i]; return r; }
inline Du operator-(const Du &a) { Du r; r.v = -a.v; for (int i = 0; i < Du::k; i++) r.d[i] = -a.d[i]; return r; }
inline Du operator*(const Du &a, const Du &b) { Du r; r.v = a.v * b.v; for (int i = 0; i < Du::k; i++) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
inline Du operator*(ld a, const Du &b) { Du r; r.v = a * b.v; for (int i = 0; i < Du::k; i++) r.d[i] = a * b.d[i]; return r; }
inline Du fn(const Du &a, ld f, ld g) { Du r; r.v = f; for (int i = 0; i < Du::k; i++) r.d[i] = g * a.d[i]; return r; }
inline Du sin(const Du &a) { return fn(a, sinl(a.v), cosl(a.v)); }
inline Du exp(const Du &a) { ld e = expl(a.v); return fn(a, e, e); }
inline Du sqrt(const Du &a) { ld s = sqrtl(a.v); return fn(a, s, 0.5L / s); }
typedef std::vector<Du> Vd;
struct Prob { int pr, n; Vd p; };
inline void rhs(const Prob &P, ld t, const Vd &y, Vd &f) {
  int n = P.n, np = (int)P.p.size(); const Vd &p = P.p; auto pi = [&](int i) -> const Du & { return p[i % np]; };
  for (auto &x : f) x = Du(0);
  switch (P.pr) {
  case 0: for (int i = 1; i <= n; i++) { f[i-1] = -(pi(i-1) * Du(0.5L + 0.25L * i)) * y[i-1]; if (i > 1) f[i-1] = f[i-1] + 0.5L * y[i-2]; if (i < n) f[i-1] = f[i-1] - 0.3L * y[i]; }
    for (int i = n + 1; i <= np; i++) f[0] = f[0] + ((ld)(double)0.1 * cosl(i * t)) * p[i-1]; break;
  case 1: for (int i = 1; i <= n; i++) f[i-1] = pi(i-1) * y[i-1] * (Du(1) - y[i-1]) + 0.1L * (y[i % n] * y[i-1]); break;
  case 2: f[0] = p[0] * y[0] - p[1] * y[0] * y[1]; f[1] = p[3] * (y[0] * y[1]) - p[2] * y[1]; break;
  case 3: f[0] = y[1]; f[1] = sin(t * (p[0] * p[1] * p[2])); break;
  case 4: for (int i = 1; i <= n; i++) { if (i == 1) f[0] = -(400.L * p[0]) * (y[0] - Du(cosl(t))); else f[i-1] = y[i-2] - pi(i-1) * y[i-1]; } break;
  case 5: for (int i = 1; i <= n; i++) f[i-1] = cosl(i * t) * p[(i - 1) % std::max(1, np - 1)]; break;
  case 6: f[0] = p[0] * y[1]; f[1] = -(p[0] * y[0]); break;
  case 7: break;
  case 8: for (int i = 1; i <= n; i++) f[i-1] = y[i % n]; break;
  case 9: { Du s(0); for (int i = 0; i < n; i++) s = s + y[i] * y[i]; for (int i = 1; i <= n; i++) f[i-1] = -y[i-1] * sqrt(Du(1) + s) + pi(i-1) * exp(-(y[i-1] * y[i-1])); } break;
  case 11: { Du s(0); for (int i = 0; i < n; i++) s = s + y[i]; for (int i = 0; i < n; i++) f[i] = (ld)0.125 * s - p[0] * y[i]; } break;
  case 10: f[0] = p[0] * (Du(1e-6L) - y[0]); for (int i = 2; i <= n; i++) f[i-1] = pi(i-1) * (y[i-2] - y[i-1]); break;
  }
}
// one extrapolation step of size H
inline void gbs(const Prob &P, ld t, ld H, Vd &y) {
  const int K = 7; int n = P.n; std::vector<Vd> T(K); Vd z0, z1, f(n), z2(n);
  for (int k = 0; k < K; k++) {
    int m = 2 * (k + 1); ld h = H / m; z0 = y; rhs(P, t, y, f); z1 = y; for (int i = 0; i < n; i++) z1[i] = y[i] + h * f[i];
    for (int s = 1; s < m; s++) { rhs(P, t + s * h, z1, f); for (int i = 0; i < n; i++) z2[i] = z0[i] + (2 * h) * f[i]; z0 = z1; z1 = z2; }
    rhs(P, t + H, z1, f); T[k].resize(n); for (int i = 0; i < n; i++) T[k][i] = 0.5L * (z1[i] + z0[i] + h * f[i]);
    for (int j = k - 1; j >= 0; j--) { ld r = (ld)(k + 1) / (j + 1); ld c = 1 / (r * r - 1); for (int i = 0; i < n; i++) T[j][i] = T[j+1][i] + c * (T[j+1][i] - T[j][i]); }
  }
  y = T[0];
}
struct Ref { std::vector<Vd> y; ld maxy = 0, maxs = 0, err = 0; };
// sens: 0 none (amplification still from y0), 1 y0, 2 parameters
inline Ref solve_ref(int pr, int n, const std::vector<double> &p, double t0, const std::vector<double> &y0, const std::vector<double> &ts, int sens, ld hmax) {
  Ref R[2];
  for (int pass = 0; pass < 2; pass++) {
    Ref &r = R[pass]; ld hm = pass ? hmax / 2 : hmax; Prob P; P.pr = pr; P.n = n; Vd y(n);
    Du::k = sens == 2 ? (int)p.size() : n; if (Du::k > MD) abort();
    for (double x : p) P.p.push_back(Du(x)); for (int i = 0; i < n; i++) y[i] = Du(y0[i]);
    if (sens == 2) for (size_t i = 0; i < p.size(); i++) P.p[i].d[i] = 1; else for (int i = 0; i < n; i++) y[i].d[i] = 1;
    ld t = t0; auto note = [&] { for (auto &x : y) { r.maxy = std::max(r.maxy, fabsl(x.v)); for (int k = 0; k < Du::k; k++) r.maxs = std::max(r.maxs, fabsl(x.d[k])); } };
    note();
    for (double te : ts) { ld T = (ld)te - t; int m = (int)ceill(fabsl(T) / hm); ld a = t; for (int s = 0; s < m; s++) { gbs(P, a + T * s / m, T / m, y); note(); } t = te; r.y.push_back(y); }
  }
  for (size_t j = 0; j < ts.size(); j++) for (int i = 0; i < n; i++) { R[1].err = std::max(R[1].err, fabsl(R[1].y[j][i].v - R[0].y[j][i].v)); for (int k = 0; k < Du::k; k++) R[1].err = std::max(R[1].err, fabsl(R[1].y[j][i].d[k] - R[0].y[j][i].d[k])); }
  return R[1];
}
extern "C" {
void fz_ode_setup(int pr, int np, double *p); void fz_ode_consts(int n, double *k); void fz_ode_jac(double t, int n, double *y, double *jac);
void fz_ode_data(double t0, int n, double *y, int nt, double *ts, double *yt, int method, double rtol, double atol, int maxn, int lay);
void fz_ode_y0(double t0, int n, int *y, int nt, double *ts, int *d, int method, double rtol, double atol, int maxn, int lay);
void fz_ode_par(double t0, int n, double *y, int np, int *p, int nt, double *ts, int *d, int method, double rtol, double atol, int maxn, int lay);
extern void (*fz_seen_fn)(double, int, const double *); extern int fz_opt_own __attribute__((weak));
void fz_opt_data(double t0, int n, double *y, int nt, double *ts, double *yt, int method, double rtol, double atol, int maxn) __attribute__((weak));
void fz_opt_y0(double t0, int n, int *y, int nt, double *ts, int *d, int method, double rtol, double atol, int maxn) __attribute__((weak));
void fz_opt_par(double t0, int n, double *y, int np, int *p, int nt, double *ts, int *d, int method, double rtol, double atol, int maxn) __attribute__((weak));
extern int fz_rhs_ntimes, fz_rhs_calls, fz_var_calls, fz_rhs_nan_comp, fz_rhs_nan_kind; extern double fz_rhs_nan_after, fz_rhs_times[20000];
}
struct Case { int pr = 0, n = 1; std::vector<double> p, y0, ts, k; double t0 = 0, rtol = 1e-6, atol = 1e-8; int method = 100, maxn = 100000, lay = 0; double judge_r = -1, judge_a = -1, badafter = HUGE_VAL;   // judge_*: tolerances of the comparison; badafter: no finite solution from then on
 
  ld hmax() const { ld h = 0.125L; if (pr == 4) h = 1.0L / (400 * p[0]); if (pr == 6) h = std::min<ld>(h, 1.0L / fabsl((ld)p[0])); ld T = 0; for (double t : ts) T = std::max(T, fabsl((ld)t - t0)); return std::min(h, std::max<ld>(T / 2, 1e-6L)); }
  std::string str() const { std::string s = fmt("problem %d n=%d np=%zu method %s rtol %g atol %g t0 %g times [", pr, n, p.size(), method == 100 ? "BDF" : method == 101 ? "ADAMS" : "?", rtol, atol, t0); for (size_t i = 0; i < ts.size() && i < 8; i++) s += fmt(" %.10g", ts[i]); s += " ] y0 ["; for (double x : y0) s += fmt(" %g", x); s += " ] p ["; for (double x : p) s += fmt(" %g", x); if (k.size()) { s += " ] constants ["; for (double x : k) s += fmt(" %g", x); } return s + fmt(" ] layout %d", lay); } };
// problems from 20 on have closed-form solutions
inline Ref solve_exact(const Case &c, int sens) {
  int n = c.n, np = (int)c.p.size(); Ref R; Du::k = sens == 2 ? np : n; if (Du::k > MD) abort();
  auto K = [&](int i) { return i < (int)c.k.size() ? (ld)c.k[i] : 0.L; }; std::vector<Du> P, Y; for (double x : c.p) P.push_back(Du(x)); for (double x : c.y0) Y.push_back(Du(x));
  for (int i = 0; i < Du::k; i++) (sens == 2 ? P[i] : Y[i]).d[i] = 1;
  auto pj = [&](int i) -> Du & { return P[i % np]; };
  auto at = [&](ld t) { Vd y(n); ld t0 = c.t0, h = t - t0;
    switch (c.pr) {
    case 20: for (int i = 0; i < n; i++) y[i] = Y[i] * exp((sinl(K(i) * t) - sinl(K(i) * t0)) * pj(i)); break;
    case 21: for (int i = 0; i < n; i++) { y[i] = Y[i]; for (int j = 0; j < np; j++) y[i] = y[i] + (sinl(K(j) * t + i + 1) - sinl(K(j) * t0 + i + 1)) * P[j]; } break;
    case 22: for (int i = 0; i < n; i++) { ld tau = K(0), A = K(1), b = K(2), s = 0, u = t0; int dir = t >= t0 ? 1 : -1;      // s: response to unit p
        while (dir > 0 ? u < t : u > t) { ld cell = dir > 0 ? floorl(u / tau + 1e-12L) : ceill(u / tau - 1e-12L) - 1; ld v = dir > 0 ? std::min(t, (cell + 1) * tau) : std::max(t, cell * tau); long q = (long)cell + i + 1; ld f = A * (1 - 2 * (((q % 2) + 2) % 2)); ld e = expl(-b * (v - u)); s = b == 0 ? s + f * (v - u) : s * e + f / b * (1 - e); u = v; }
        ld w = K(3); auto V = [&](ld q) { return (b * cosl(w * q) + w * sinl(w * q)) / (b * b + w * w); }; s = s + A * (V(t) - V(t0) * expl(-b * h));
        y[i] = expl(-b * h) * Y[i] + s * pj(i); } break;
    case 23: { auto Q = [&](Vd z) { Du s(0); for (auto &x : z) s = s + x; for (auto &x : z) x = x - (2.L / n) * s; return z; }; Vd z = Q(Y); for (int i = 0; i < n; i++) z[i] = sinl(t + i + 1) * pj(i) + expl(-K(i) * h) * (z[i] - sinl(t0 + i + 1) * pj(i)); y = Q(z); } break;
    case 24: for (int i = 0; i < n; i++) { ld sg = (i + 1) % 2 ? 1 : -1, a = 1.5L, b = 0.5L, u = t + i + 1, u0 = t0 + i + 1; auto G = [&](ld w) { return a * a * w - 2 * a * b * cosl(w) + b * b * (w / 2 - sinl(2 * w) / 4); }; ld q = c.p[i % np]; ld D = expl(-3 * K(i) * q * q * (G(u) - G(u0))); ld g = sg * (a + b * sinl(u)), g0 = sg * (a + b * sinl(u0)); Du w(q * g); if (sens == 2) w.d[i % np] = g - g0 * D; else w.d[i] = D; y[i] = w; } break;
    case 29: for (int i = 0; i < n; i++) { int q = i % 2 ? i - 1 : i + 1 < n ? i + 1 : -1; Du u = Y[i] - sinl(t0 + i + 1) * pj(i), v(0); if (q >= 0) v = Y[q] - sinl(t0 + q + 1) * pj(q); ld w = K(1) * h, e = expl(-K(0) * h), sg = i % 2 ? -1 : 1; y[i] = sinl(t + i + 1) * pj(i) + (q < 0 ? e * u : (e * cosl(w)) * u + (sg * e * sinl(w)) * v); } break;
    case 25: case 27: { bool lo = c.pr == 25; auto part = [&](int i) { return lo ? (i % 2 ? i - 1 : -1) : (i % 2 == 0 && i + 1 < n ? i + 1 : -1); }; Vd z(n); for (int i = 0; i < n; i++) { int q = part(i); Du w = q < 0 ? Y[i] : Y[i] - 0.9L * Y[q]; z[i] = sinl(t + i + 1) * pj(i) + expl(-K(i) * h) * (w - sinl(t0 + i + 1) * pj(i)); } for (int i = 0; i < n; i++) { int q = part(i); y[i] = q < 0 ? z[i] : z[i] + 0.9L * z[q]; } } break;
    case 28: for (int i = 0; i < n; i++) y[i] = Y[i] * exp((h * ((t + t0) / 2 + 0.3L * (i + 1))) * pj(i)); break;
    case 26: for (int i = 0; i < n; i++) y[i] = Y[i] * exp((-expl(-K(i)) * h) * pj(i)); break;
    default: abort(); }
    for (auto &x : y) { R.maxy = std::max(R.maxy, fabsl(x.v)); for (int q = 0; q < Du::k; q++) R.maxs = std::max(R.maxs, fabsl(x.d[q])); }
    return y; };
  at(c.t0); ld a = c.t0; for (double t : c.ts) { int m = 1 + 40 / (int)c.ts.size(); for (int q = 1; q < m; q++) at(a + (t - a) * q / m); R.y.push_back(at(t)); a = t; }
  return R;
}
static const int NGROUP = 10 * 32 * 2 * 16; extern double *g_ratio;
extern double CTOL;
