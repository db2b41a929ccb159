// C12 data solves, C13 initial-state sensitivities, C14 parameter sensitivities, C15 composition
#include "call.h"
#include "ode.h"
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <map>
extern "C" { void fz_alloc_arm(long k, int s) __attribute__((weak)); long fz_alloc_disarm(void) __attribute__((weak)); long fz_alloc_failed(void) __attribute__((weak)); long fz_alloc_live(void) __attribute__((weak)); long fz_alloc_bytes(void) __attribute__((weak)); }
static long g_arm = -1; static int g_sticky = 0; static long g_allocs = 0;    // -1: allocator not armed
static void arm() { if (g_arm >= 0) fz_alloc_arm(g_arm, g_sticky); }
static void disarm() { if (g_arm >= 0) g_allocs = fz_alloc_disarm(); }
extern int *g_effort;
static bool g_nanok = false;      // the exact solution is not a number
static const double INFD = HUGE_VAL;
// accepted multiple of the unit tolerance, per (kind of result, problem, method, decade of rtol): from the table, see tools/mkctol.py
static ld g_slack = 1; static bool g_opt = false;       // through a user-defined option type (C25)
enum { KDATA, KY0V, KY0D, KPV, KPD };
static int group(const Case &c, int kind) { if (g_opt) kind += 5; int dec = c.rtol > 0 ? std::min(15, std::max(0, (int)lround(-log10(c.rtol)))) : 0; return ((kind * 32 + c.pr) * 2 + (c.method == 101)) * 16 + dec; }
static ld CT(const Case &c, int kind) { static std::vector<double> t; if (t.empty()) { t.assign(NGROUP, 0); static const struct { int g; double r; } A[] = {
#include "ctol.h"
    {-1, 0}}; for (auto &a : A) if (a.g >= 0) t[a.g] = a.r; }
  if (CTOL > 0) return CTOL; if (c.judge_r >= 0) return 100; double r = t[group(c, kind)]; if (r > 0) return std::max(4 * r, 0.5);
  for (int g = 0; g < 16; g++) r = std::max(r, t[group(c, kind) / 16 * 16 + g]); return r > 0 ? std::max(8 * r, 10.0) : 100; }
static void ratio(const Case &c, int kind, ld r) { int g = group(c, kind); if (c.judge_r < 0 && r > g_ratio[g]) g_ratio[g] = r; }
static bool fixed2(int pr) { return pr == 2 || pr == 3 || pr == 6; }
static std::vector<double> params(int pr, int np, int set) {
  std::vector<double> p; static const double B[] = {0.7, 1.1, 0.4, 0.9, 1.3, 0.6, 0.8, 1.2, 0.5, 1.0, 0.75, 1.05, 0.65, 0.95};
  for (int i = 0; i < np; i++) p.push_back(B[(i + 3 * set) % 14]);
  if (pr == 6) p[0] = 2.0 + set; if (pr == 4) p[0] = 1.0;
  return p; }
static int minpar(int pr) { return pr == 2 ? 4 : pr == 3 ? 3 : 1; }
static std::vector<double> state(int pr, int n, int set, double scale) { std::vector<double> y; static const double Y[] = {1.0, 0.5, -0.25, 0.8, 0.3, -0.6, 1.2, 0.9, -0.4, 0.7}; static const double Z[] = {0.5, 0.2, 0.8, 0.4, 0.6, 0.3, 0.7, 0.9, 0.1, 0.55};
  for (int i = 0; i < n; i++) y.push_back(scale * ((pr == 1 || pr == 2) ? Z[(i + set) % 10] : Y[(i + set) % 10])); return y; }
static const int NGRID = 7;
static std::vector<double> grid(int g, double t0, double T) {
  switch (g) { case 0: return {t0 + T}; case 1: return {t0 + 0.3 * T, t0 + 0.55 * T, t0 + T}; case 2: return {t0 + 1e-7 * T, t0 + 1e-3 * T, t0 + T}; case 3: return {t0 + 0.5 * T, t0 + 0.5 * T, t0 + T};
  case 4: { std::vector<double> r; for (int k = 1; k <= 12; k++) r.push_back(t0 + T * k / 12); return r; } case 5: return {t0 + 0.9 * T, t0 + 0.91 * T}; case 6: { std::vector<double> r; for (int k = 1; k <= 60; k++) r.push_back(t0 + T * pow(k / 60.0, 2)); return r; } }
  return {}; }
static const double TOLS[][2] = {{1e-6, 1e-8}, {1e-9, 1e-11}, {1e-3, 1e-4}, {1e-4, 1e-10}, {1e-10, 1e-6}, {1e-11, 1e-13}};

// error per unit of problem time accumulates over an oscillator's periods
static ld unitv(Case c, const Ref &r) { if (c.judge_r >= 0) { c.rtol = c.judge_r; c.atol = c.judge_a; } ld amp = std::max<ld>(1, r.maxs); if (c.pr == 6 && c.ts.size()) amp *= std::max<ld>(1, fabsl(c.p[0] * ((ld)c.ts.back() - c.t0))); return g_slack * sqrtl(c.n) * (c.rtol * r.maxy + c.atol) * amp; }
static ld units(Case c, const Ref &r) { if (c.judge_r >= 0) { c.rtol = c.judge_r; c.atol = c.judge_a; } return g_slack * sqrtl(c.n) * (c.rtol * std::max(r.maxs, r.maxy) + c.atol) * std::max<ld>(1, r.maxs); }
static ld tolv(const Case &c, const Ref &r, int kind) { return CT(c, kind) * unitv(c, r) + 1e-13L * r.maxy; }
static ld tols(const Case &c, const Ref &r, int kind) { return CT(c, kind) * units(c, r) + 1e-12L * (1 + r.maxs); }
static Ref solve_valid(const Case &c0, int sens, bool check) {       // entries without a finite exact solution are NaN
  Case c = c0; size_t k = 0; bool ok = true; for (double v : c.y0) ok = ok && std::isfinite(v);
  while (ok && k < c.ts.size() && std::isfinite(c.ts[k]) && c.ts[k] <= c.badafter) k++;
  c.ts.resize(k); Ref r; r.maxs = 1; ld h = c.hmax();
  if (k && c.pr >= 20) r = solve_exact(c, sens);
  else if (k) for (int q_ = 0; q_ < 6; q_++, h /= 3) { r = solve_ref(c.pr, c.n, c.p, c.t0, c.y0, c.ts, sens, h); if (r.err <= 0.01L * unitv(c, r)) break; }
  if (check && r.err > 0.01L * unitv(c, r)) { fprintf(stderr, "reference not converged: %Lg %s\n", r.err, c.str().c_str()); abort(); }
  Vd bad(c.n); for (auto &x : bad) x.v = NAN; while (r.y.size() < c0.ts.size()) r.y.push_back(bad);
  return r; }
static Ref refer(Machine &, const Case &c, int sens) { return solve_valid(c, sens, true); }
static void use_data(Machine &m, Case c) {
  m.say("cvodes_sol(data) %s", c.str().c_str());
  Ref r = refer(m, c, 0); int nt = c.ts.size(); std::vector<double> yt(c.n * nt + 4, -555.0), y = c.y0;
  fz_ode_setup(c.pr, c.p.size(), c.p.data()); if (c.pr >= 20) fz_ode_consts(c.k.size(), c.k.data());
  arm(); if (g_opt) fz_opt_data(c.t0, c.n, y.data(), nt, c.ts.data(), yt.data(), c.method, c.rtol, c.atol, c.maxn); else fz_ode_data(c.t0, c.n, y.data(), nt, c.ts.data(), yt.data(), c.method, c.rtol, c.atol, c.maxn, c.lay); disarm();
  ld tol = tolv(c, r, KDATA), un = unitv(c, r);
  for (int j = 0; j < nt; j++) for (int i = 0; i < c.n; i++) { ++*g_checks; double g = yt[j * c.n + i]; if (std::isnan((double)r.y[j][i].v)) { if (std::isfinite(g)) m.bad(fmt("component %d at output time %d (t=%.12g) is returned as %.17g although there is no such solution", i + 1, j + 1, c.ts[j], g)); continue; } ld e = fabsl(g - r.y[j][i].v); ratio(c, KDATA, (e - 1e-13L * r.maxy) / un); if (!(e <= tol)) m.bad(fmt("component %d at output time %d (t=%.12g) is %.17g, the exact solution is %.17Lg (tolerance %.3Lg)", i + 1, j + 1, c.ts[j], g, r.y[j][i].v, tol)); }
  for (int k = 0; k < 4; k++) if (yt[c.n * nt + k] != -555.0) m.bad("memory after the result was written");
  int nd = m.add(); m.n[nd].v = yt[0]; m.edge(nd, c.pr * 100 + c.n, c.method, 0); m.edge(nd, nt, c.rtol, 0); m.edge(nd, c.lay, c.t0, 0);
}
// y0 / parameters are the nodes a; returns the nodes of the solution, column by column
static ld g_units = 1;
static std::vector<int> use_sens(Machine &m, Case c, bool par, const std::vector<int> &a) {
  std::vector<double> &x = par ? c.p : c.y0; for (size_t i = 0; i < a.size(); i++) x[i] = m.v(a[i]);
  int nt = c.ts.size(); std::vector<int> d; for (int i = 0; i < c.n * nt; i++) d.push_back(m.add());
  m.say("[n%d..] = cvodes_sol(%s = %s) %s", d[0], par ? "parameters" : "y0", Machine::lst(a).c_str(), c.str().c_str());
  Ref r = refer(m, c, par ? 2 : 0); Ref ry; ry.maxs = 1; auto rd = m.regs(d), ra = m.regs(a); std::vector<double> y = c.y0;
  if (par) ry = solve_valid(c, 0, false);
  fz_ode_setup(c.pr, c.p.size(), c.p.data()); if (c.pr >= 20) fz_ode_consts(c.k.size(), c.k.data());
  arm(); if (g_opt && par) fz_opt_par(c.t0, c.n, y.data(), (int)ra.size(), ra.data(), nt, c.ts.data(), rd.data(), c.method, c.rtol, c.atol, c.maxn); else if (g_opt) fz_opt_y0(c.t0, c.n, ra.data(), nt, c.ts.data(), rd.data(), c.method, c.rtol, c.atol, c.maxn); else if (par) fz_ode_par(c.t0, c.n, y.data(), (int)ra.size(), ra.data(), nt, c.ts.data(), rd.data(), c.method, c.rtol, c.atol, c.maxn, c.lay);
  else fz_ode_y0(c.t0, c.n, ra.data(), nt, c.ts.data(), rd.data(), c.method, c.rtol, c.atol, c.maxn, c.lay);
  disarm();
  r.maxs = std::max(r.maxs, ry.maxs); ld tv = tolv(c, r, par ? KPV : KY0V), tS = tols(c, r, par ? KPD : KY0D), un = unitv(c, r); g_units = units(c, r);
  bool ck = m.ckval; m.ckval = true;
  for (int j = 0; j < nt; j++) for (int i = 0; i < c.n; i++) { int k = d[j * c.n + i]; double g = fz_val(m.reg(k)); if (std::isnan((double)r.y[j][i].v)) { m.n[k].v = g; if (std::isfinite(g)) m.bad(fmt("component %d at output time %d (t=%.12g) is returned as %.17g although there is no such solution", i + 1, j + 1, c.ts[j], g)); continue; } ratio(c, par ? KPV : KY0V, (fabsl(g - r.y[j][i].v) - 1e-13L * r.maxy) / un); m.chkval(k, r.y[j][i].v, tv, fmt("solution component %d at time %d", i + 1, j + 1).c_str()); for (size_t q_ = 0; q_ < a.size(); q_++) m.edge(k, a[q_], r.y[j][i].d[q_], tS); }
  m.ckval = ck;
  return d; }
static void ratios(Machine &m, const Case &c, int kind, int root) { ld s = 0; for (auto &e : m.n[root].e) s = std::max(s, fabsl((ld)e.p)); for (auto &e : m.n[root].e) ratio(c, kind, (fabsl(fz_adj(m.reg(e.op)) - (ld)e.p) - 1e-12L * (1 + s)) / g_units); }

#ifndef FAULT_PART
void fam_ode(Fams &F, bool th, const std::string &sel) {
  static const int NS[] = {1, 2, 3, 4, 5, 10}; static const int PR[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
  // (problem, n) pairs
  auto PN = std::make_shared<std::vector<std::pair<int, int>>>(); for (int p : PR) if (fixed2(p)) PN->push_back({p, 2}); else for (int n : NS) PN->push_back({p, n});
  auto mk = [](int pr, int n, int np, int method, double t0, int g, double T, double rt, double at, int lay, int set, double scale = 1) { Case c; c.pr = pr; c.n = n; c.p = params(pr, std::max(np, minpar(pr)), set); c.y0 = state(pr, n, set, scale); c.t0 = t0; c.ts = grid(g, t0, T); c.method = method; c.rtol = rt; c.atol = at; c.lay = lay; return c; };
  static const double T0[] = {0, -1.5, 3};
  // problems with closed-form solutions. mode: 0 data, 1 initial-state sensitivities, 2 parameter sensitivities
  auto go = [](Machine &m, const Case &c, int mode) { if (mode == 0) { use_data(m, c); return; } std::vector<int> a; for (double v : mode == 2 ? c.p : c.y0) a.push_back(m.leaf(v)); auto dd = use_sens(m, c, mode == 2, a); long keep = 60000 / (long)dd.size() / (1 + (long)dd.size() / 50) + 1, step = std::max<long>(1, (long)dd.size() / keep); if (step > 1) { while (std::__gcd(step, (long)c.n) != 1) step++; } for (size_t k = dd.size(); k > 0; k = k > (size_t)step ? k - step : 0) { m.grad_check(dd[k - 1]); ratios(m, c, mode == 2 ? KPD : KY0D, dd[k - 1]); } };
  auto xgrid = [](int g, double t0, double T) { std::vector<double> r; switch (g) { case 0: return std::vector<double>{t0 + T}; case 1: return std::vector<double>{t0 + 0.3 * T, t0 + 0.55 * T, t0 + T}; case 2: for (int k = 1; k <= 150; k++) r.push_back(t0 + T * k / 150); return r; case 3: for (int k = 1; k <= 40; k++) r.push_back(t0 + T * (1 - pow(1 - k / 41.0, 3))); return r; default: for (int k = 1; k <= 60; k++) r.push_back(t0 + T * (0.5 + 0.01 * k / 60)); r.push_back(t0 + T); return r; } };
  auto xfam = [&](int mode) {
    static const double XT[][2] = {{1e-5, 1e-7}, {1e-8, 1e-10}, {1e-3, 1e-5}, {1e-11, 1e-13}};
    int nt = th ? 4 : mode ? 2 : 3; const char *W = mode == 0 ? "" : mode == 1 ? "; all initial-state derivatives" : "; all parameter derivatives";
    static const int XN[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 20, 33, 40}; auto H = std::make_shared<std::vector<std::pair<int, int>>>();
    int cap = mode == 1 && !th ? 17 : 40; for (int n : XN) if (n <= cap) for (int h = 0; h < n; h++) H->push_back({n, h});
    if (mode != 2) F.push_back({"modes", fmt("1..%d uncoupled equations one of which (every position) is the only hard one, x 2 methods x forward/backward x %d tolerances x hard initial value zero or not%s", cap, nt, W), (uint64_t)H->size() * 2 * 2 * nt * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); auto h = (*H)[d.pick(H->size())]; Case c; c.pr = 20; c.n = h.first; c.method = 100 + d.pick(2); bool back = d.pick(2); int to = d.pick(nt); bool zero = d.x; c.rtol = XT[to][0]; c.atol = XT[to][1]; c.p = {1}; c.t0 = back ? 2 : -1; for (int j = 0; j < c.n; j++) { c.k.push_back(j == h.second ? 14 + h.second % 3 : 0.4 + 0.01 * j); c.y0.push_back((j % 2 ? -1 : 1) * (0.6 + 0.02 * j)); } if (zero) c.y0[h.second] = 0; c.ts = xgrid(1, c.t0, back ? -2.5 : 2.5); go(m, c, mode); }, 8, 120});
    if (mode == 2) F.push_back({"hot-parameters", fmt("1..40 parameters one of which (every position) drives the only fast forcing, its value zero or not, x {1, 3} equations x 2 methods x forward/backward x %d tolerances%s", nt, W), (uint64_t)H->size() * 2 * 2 * 2 * nt * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); auto h = (*H)[d.pick(H->size())]; Case c; c.pr = 21; c.n = d.pick(2) ? 3 : 1; c.method = 100 + d.pick(2); bool back = d.pick(2); int to = d.pick(nt); bool zero = d.x; c.rtol = XT[to][0]; c.atol = XT[to][1]; c.t0 = back ? 2 : -1; for (int j = 0; j < h.first; j++) { c.k.push_back(j == h.second ? 14 + h.second % 3 : 0.4 + 0.01 * j); c.p.push_back(j == h.second ? (zero ? 0 : 0.7) : 0.1 + 0.02 * j); } c.y0 = state(21, c.n, 0, 1); c.ts = xgrid(1, c.t0, back ? -2.5 : 2.5); if (h.first > 13 && !th && (i / 7) % 2) throw Skip(); go(m, c, mode); }, 8, 120});
    F.push_back({"jumps", fmt("right-hand sides with jumps of size 1..1e6 at 1, 3 and 10 points, 1..4 equations, 2 methods, forward/backward, %d tolerances, 3 grids, 2 decay rates%s", nt, W), (uint64_t)4 * 3 * 3 * 2 * 2 * nt * 3 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); Case c; c.pr = 22; int a = d.pick(4), w = d.pick(3); c.n = 1 + (d.pick(3) == 1 ? 1 : i % 3 == 2 ? 3 : 0); c.method = 100 + d.pick(2); bool back = d.pick(2); int to = d.pick(nt), g = d.pick(3); double b = d.x ? 0.8 : 0; static const double A_[] = {1, 1e3, 1e4, 1e6}; static const double TA[] = {0.83, 0.31, 0.101}; c.k = {TA[w], A_[a], b, 30}; c.p = {1, 0.5}; c.y0 = state(22, c.n, 0, 1); c.rtol = XT[to][0]; c.atol = XT[to][1]; c.t0 = back ? 1.02 : 0.02; c.ts = xgrid(g ? g : 1, c.t0, back ? -1 : 1); go(m, c, mode); }, 4, 120});
    if (th && sel == "C14") F.back().batch = 1, F.back().max_stops = 12;   // with the tightest tolerances CVODES may give up at a jump, and says so
    F.push_back({"stiff", fmt("linear and cubic stiff systems, 1..10 coupled equations with rates from 1 to 1e2..1e8 (BDF; to 1e3 for ADAMS), positive and negative solutions, on the slow manifold and off it, 5 grids, %d tolerances%s", nt, W), (uint64_t)2 * 5 * 4 * 2 * 5 * nt * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); Case c; c.pr = d.pick(2) ? 24 : 23; static const int N_[] = {1, 2, 3, 5, 10}; c.n = N_[d.pick(5)]; int L = d.pick(4); c.method = 100 + d.pick(2); int g = d.pick(5), to = d.pick(nt); bool off = d.x; if (c.method == 101 && L) throw Skip(); if (c.pr == 24 && off) throw Skip(); double Lm = c.method == 101 ? 300 : pow(10, 2 + 2 * L); c.p = {1, 0.9, 1.2}; c.rtol = XT[to][0]; c.atol = XT[to][1]; c.t0 = 0.5; for (int j = 0; j < c.n; j++) c.k.push_back(c.n == 1 ? Lm : pow(Lm, j / (c.n - 1.0)));
        std::vector<long double> z; long double s = 0; for (int j = 0; j < c.n; j++) { z.push_back(c.p[j % 3] * sinl(c.t0 + j + 1) + (off ? (j % 2 ? 0.5L : -0.4L) : 0)); s += z.back(); } for (int j = 0; j < c.n; j++) c.y0.push_back(c.pr == 23 ? (double)(z[j] - 2.L / c.n * s) : (double)(c.p[j % 3] * ((j + 1) % 2 ? 1 : -1) * (1.5L + 0.5L * sinl(c.t0 + j + 1)))); c.ts = xgrid(g, c.t0, 2); go(m, c, mode); }, 4, 240});
    F.push_back({"times", fmt("start times 0, 1e3, -1e6 and 5e7, intervals of 1e-4 to 100, forward/backward, 5 grids with up to 150 outputs, smooth forcing, 2 methods, 2 tolerances%s", W), (uint64_t)4 * 3 * 2 * 5 * 2 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); Case c; c.pr = 21; static const double T_[] = {0, 1e3, -1e6, 5e7}; static const double L_[] = {1e-4, 1, 100}; c.t0 = T_[d.pick(4)]; double L = L_[d.pick(3)]; bool back = d.pick(2); int g = d.pick(5); c.method = 100 + d.pick(2); int to = d.x; if (fabs(c.t0) > 1e5 && L < 1) L = 1; c.rtol = to ? 1e-5 : 1e-4; c.atol = to ? 1e-6 : 1e-7; c.n = 2; c.k = {1, 0.5, 2}; c.p = {1, 0.4, -0.3}; c.y0 = {0.3, -0.4}; c.ts = xgrid(g, c.t0, back ? -L : L); go(m, c, mode); }, 4, 120});
    F.push_back({"signs", fmt("right-hand sides whose derivatives change sign with time, start times -2, -0.7, 0, 0.6, outputs before, after and across time zero, forward/backward, {1, 2, 3} equations x 1..3 parameters x 3 grids x 2 methods x %d tolerances%s", nt, W), (uint64_t)4 * 2 * 3 * 3 * 3 * 2 * nt,
      [=](uint64_t i, Machine &m) { Idx d(i); Case c; c.pr = 28; static const double T_[] = {-2, -0.7, 0, 0.6}; c.t0 = T_[d.pick(4)]; bool back = d.pick(2); c.n = 1 + d.pick(3); int np = 1 + d.pick(3), g = d.pick(3); c.method = 100 + d.pick(2); int to = d.x; c.rtol = XT[to][0]; c.atol = XT[to][1]; static const double P_[] = {0.9, -0.6, 1.1}; c.p.assign(P_, P_ + np); c.y0 = state(28, c.n, 0, 1); c.ts = xgrid(g, c.t0, back ? -1.4 : 1.4); go(m, c, mode); }, 8, 120});
    // the evaluation times of a first solve, among which are the ends of all its steps, are output times of a second one that takes the same steps
    F.push_back({"aligned", fmt("output times on the ends of internal steps, and the next floating-point number on either side of them, 5 problems (smooth, hot, jumps, stiff, cubic) x {1, 2, 4} equations x 2 methods x forward/backward x %d tolerances%s", nt, W), (uint64_t)5 * 3 * 2 * 2 * nt * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int pk = d.pick(5); static const int N_[] = {1, 2, 4}; Case c; c.n = N_[d.pick(3)]; c.method = 100 + d.pick(2); bool back = d.pick(2); int to = d.pick(nt), w = d.x; c.rtol = XT[to][0]; c.atol = XT[to][1]; c.t0 = back ? 1.02 : -0.98;
        switch (pk) { case 0: c.pr = 21; c.k = {1, 0.5, 2}; c.p = {1, 0.4, -0.3}; c.y0 = state(21, c.n, 0, 1); break; case 1: c.pr = 20; c.p = {1}; for (int j = 0; j < c.n; j++) { c.k.push_back(j == c.n / 2 ? 14 : 0.4); c.y0.push_back(j % 2 ? -0.7 : 0.6); } break; case 2: c.pr = 22; c.k = {0.31, 1e3, back ? 0 : 0.8, 30}; c.p = {1, 0.5}; c.y0 = state(22, c.n, 0, 1); break;
          default: if (back) throw Skip(); c.pr = pk == 3 ? 23 : 24; c.t0 = 0.5; c.p = {1, 0.9, 1.2}; long double s = 0; std::vector<long double> z; for (int j = 0; j < c.n; j++) { c.k.push_back(c.method == 101 ? 100 : pow(1e4, c.n == 1 ? 1 : j / (c.n - 1.0))); z.push_back(c.p[j % 3] * sinl(c.t0 + j + 1)); s += z.back(); } for (int j = 0; j < c.n; j++) c.y0.push_back(pk == 3 ? (double)(z[j] - 2.L / c.n * s) : (double)(c.p[j % 3] * ((j + 1) % 2 ? 1 : -1) * (1.5L + 0.5L * sinl(c.t0 + j + 1)))); }
        double T = c.t0 + (back ? -2 : 2), u = c.t0 + 0.02 * (T - c.t0); c.ts = {u, T}; fz_rhs_ntimes = 0; go(m, c, mode); std::vector<double> a; double last = u; int k = fz_rhs_ntimes; auto past = [&](double x, double y) { return back ? x < y : x > y; };
        for (int j = 0; j < k; j++) if (past(fz_rhs_times[j], last) && !past(fz_rhs_times[j], T)) a.push_back(last = fz_rhs_times[j]);
        size_t most = mode ? 24 : 120, step = a.size() / most + 1; c.ts = {u}; for (size_t j = i % step; j < a.size(); j += step) { double t = a[j]; if (w) t = nextafter(t, w == 1 ? T : c.t0); if (past(t, c.ts.back()) && !past(t, T)) c.ts.push_back(t); } if (past(T, c.ts.back())) c.ts.push_back(T); go(m, c, mode); }, 2, 240});
    F.push_back({"nested-solves", fmt("right-hand sides that solve an ODE themselves, 1..4 equations inside and outside, 2 methods, 2 tolerances, 2 grids%s", W), (uint64_t)4 * 2 * 2 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); Case c; c.pr = 26; c.n = 1 + d.pick(4); c.method = 100 + d.pick(2); int to = d.pick(2), g = d.x; c.rtol = XT[2 * to][0] / 10; c.atol = XT[2 * to][1] / 10; c.p = {1, 0.5}; for (int j = 0; j < c.n; j++) c.k.push_back(0.5 + 0.7 * j); c.y0 = state(26, c.n, 0, 1); c.ts = xgrid(g, 0, 1); go(m, c, mode); }, 1, 240});
  };
  if (sel == "C12") {
    int nt = th ? 6 : 4;
    F.push_back({"solves", fmt("%zu (problem, number of equations) pairs x 2 methods x 3 start times x %d output grids x forward/backward x %d tolerances x contiguous/strided arguments", PN->size(), NGRID, nt), (uint64_t)PN->size() * 2 * 3 * NGRID * 2 * nt * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); auto pn = (*PN)[d.pick(PN->size())]; int me = 100 + d.pick(2); double t0 = T0[d.pick(3)]; int g = d.pick(NGRID); bool back = d.pick(2); int to = d.pick(nt), lay = d.x;
        if (pn.first == 4 && back) throw Skip(); double T = pn.first == 4 ? 0.4 : pn.first == 9 && back ? 0.3 : 1.5;
        use_data(m, mk(pn.first, pn.second, 1 + i % 3, me, t0, g, back ? -T : T, TOLS[to][0], TOLS[to][1], lay, to + g)); }, 32, 120});
    F.push_back({"scaled", "linear problems with states of size 1e4 and 1e-6 and tolerance pairs whose members dominate each other either way", (uint64_t)2 * 6 * 4 * NGRID * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int me = 100 + d.pick(2), n = NS[d.pick(6)], wh = d.pick(4), g = d.pick(NGRID); bool tight = d.x; Case c;
        if (wh == 0) c = mk(0, n, 2, me, 0, g, 1, tight ? 1e-11 : 1e-10, 1e-5, 0, 0, 1e4); else if (wh == 1) c = mk(10, n, 1, me, 0, g, 2, 1e-5, tight ? 1e-15 : 1e-13, 0, 0, 2e-6); else if (wh == 2) c = mk(10, n, 2, me, 1, g, 2, 1e-3, 1e-16, 0, 0, 1e-8); else c = mk(0, n, 1, me, -2, g, 1, 1e-8, tight ? 1e-3 : 1e-7, 0, 1, 1e6);
        use_data(m, c); }, 32, 120});
    F.push_back({"many-steps", "oscillators that need from a few to tens of thousands of internal steps between output times, with step limits that suffice, 2 methods, 3 grids", (uint64_t)2 * 5 * 3 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int me = 100 + d.pick(2), w = d.pick(5), g = d.pick(3), to = d.x; static const double W[] = {1, 10, 40, 100, 150}; Case c = mk(6, 2, 1, me, 0, g, 3, TOLS[to][0] / 100, TOLS[to][1] / 100, 0, 0); c.p[0] = W[w]; c.maxn = w < 2 ? 20000 : 500000; use_data(m, c); }, 1, 240});
    F.push_back({"histories", "every sequence of 3 solves over {1, 2, 4 equations} x {BDF, ADAMS} x {loose, tight} x {forward, backward}, and 2 data solves around a sensitivity solve, in one process", (uint64_t)24 * 24 * 24,
      [=](uint64_t i, Machine &m) { Idx d(i); for (int k = 0; k < 3; k++) { int e = d.pick(24); Idx q_(e); int n = q_.pick(3) == 0 ? 1 : e % 3 == 1 ? 2 : 4; int me = 100 + q_.pick(2); int to = q_.pick(2) ? 1 : 2; bool back = q_.x;
          if (k == 1 && i % 3 == 0) { Case c = mk(0, n, 2, me, 0, 1, 0.7, 1e-6, 1e-8, 0, k); std::vector<int> a; for (double v : c.y0) a.push_back(m.leaf(v)); use_sens(m, c, false, a); }
          else use_data(m, mk((e + k) % 2 ? 9 : 0, n, 1, me, k, e % 3, back ? -0.3 : 0.8, TOLS[to][0], TOLS[to][1], 0, k)); } }, 32, 120});
    F.push_back({"shapes", "1..40 equations x 1, 2, 7, 40 output times", (uint64_t)14 * 4 * 2, [=](uint64_t i, Machine &m) { Idx d(i); int n = 1 + d.pick(14); static const int NT[] = {1, 2, 7, 40}; int k = NT[d.pick(4)]; Case c = mk(9, n, 1, 100 + d.x, 0.5, 0, 1, 1e-7, 1e-9, 0, 0); c.ts.clear(); for (int j = 1; j <= k; j++) c.ts.push_back(0.5 + 1.3 * j / k); use_data(m, c); }, 8, 120});
  }
  if (sel == "C24") {
    // number of right-hand-side evaluations (real and variable) of one solve; the results are checked as well
    auto cost = [](Machine &m, const Case &c, int mode) { int a = fz_rhs_calls, b = fz_var_calls; if (mode == 0) use_data(m, c); else { std::vector<int> l; for (double v : mode == 2 ? c.p : c.y0) l.push_back(m.leaf(v)); m.grad_check(use_sens(m, c, mode == 2, l).back()); } m.say("  %d real and %d variable evaluations", fz_rhs_calls - a, fz_var_calls - b); return std::make_pair(fz_rhs_calls - a, fz_var_calls - b); };
    // a set of solves: smooth, oscillating, stiff, discontinuous problems with 1..40 equations
    auto prob = [=](int k, int n, int me, double rt, int hard) { Case c; c.method = me; c.rtol = rt; c.atol = rt / 100; c.n = n; c.t0 = 0.5;
      switch (k) { case 0: return mk(9, n, 2, me, 0.5, 0, 2, rt, rt / 100, 0, 0); case 1: return mk(0, n, 3, me, 0.5, 0, 3, rt, rt / 100, 0, 1); case 2: { Case d = mk(6, 2, 1, me, 0.5, 0, 4, rt, rt / 100, 0, 0); d.p[0] = hard ? 20 : 3; return d; }
      case 3: c.pr = 20; c.p = {1}; for (int j = 0; j < n; j++) { c.k.push_back(j == n / 2 ? hard ? 20 : 3 : 0.5); c.y0.push_back(j % 2 ? -0.7 : 0.6); } break;
      case 4: c.pr = 21; for (int j = 0; j < std::min(n, 13); j++) { c.k.push_back(j == 2 ? hard ? 20 : 3 : 0.5 + 0.1 * j); c.p.push_back(0.3); } c.y0 = state(21, n, 0, 1); break;
      case 5: c.pr = 22; c.k = {0.47, hard ? 1e4 : 10.0, 0.5, 20}; c.p = {1}; c.y0 = state(22, n, 0, 1); break;
      default: { c.pr = k == 6 ? 23 : 24; c.p = {1, 0.9}; double L = me == 101 ? (hard ? 100 : 10) : hard ? 1e6 : 1e2; long double s = 0; std::vector<long double> z; for (int j = 0; j < n; j++) { c.k.push_back(n == 1 ? L : pow(L, j / (n - 1.0))); z.push_back(c.p[j % 2] * sinl(c.t0 + j + 1) + (j % 2 ? 0.3L : -0.3L)); s += z.back(); } for (int j = 0; j < n; j++) c.y0.push_back(k == 6 ? (double)(z[j] - 2.L / n * s) : (double)(c.p[j % 2] * ((j + 1) % 2 ? 1 : -1) * (1.5L + 0.5L * sinl(c.t0 + j + 1)))); } }
      c.ts = {2.5}; return c; };
    static const int EN[] = {1, 2, 5, 9, 20}; static const double ET[] = {1e-4, 1e-7, 1e-10};
    F.push_back({"budget", "8 kinds of problem (smooth, oscillating, forced, discontinuous, stiff linear and cubic, decaying) x easy/hard x 1, 2, 5, 9, 20 equations x 2 methods x 3 tolerances x 3 kinds of solve, single output: evaluations at most 1.6 times (and 40 more than) those recorded for this solve", (uint64_t)8 * 2 * 5 * 2 * 3 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int k = d.pick(8), hard = d.pick(2), n = EN[d.pick(5)], me = 100 + d.pick(2), to = d.pick(3), mode = d.x; if (k == 2 && n != 2) throw Skip(); if (mode && n > 9) throw Skip(); Case c = prob(k, n, me, ET[to], hard); auto a = cost(m, c, mode);
        if (g_effort) { g_effort[2 * i] = a.first; g_effort[2 * i + 1] = a.second; } static const int T_[][3] = {
#include "effort.h"
          {-1, 0, 0}}; ++*g_checks; static std::map<int, std::pair<int, int>> tab; if (tab.empty()) for (auto &t : T_) tab[t[0]] = {t[1], t[2]}; if (!tab.count(i)) return; auto b = tab[i]; if (a.first > 1.6 * b.first + 40 || a.second > 1.6 * b.second + 40) m.bad(fmt("the solve takes %d real and %d variable right-hand-side evaluations; %d and %d are enough", a.first, a.second, b.first, b.second)); }, 8, 120});
    F.push_back({"outputs", "the same solves with 0, 1, 20 and 300 further output times: at most 5 %% (and 10) more evaluations", (uint64_t)8 * 5 * 2 * 3 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int k = d.pick(8), n = EN[d.pick(5)], me = 100 + d.pick(2), to = d.pick(3), mode = d.x; if (k == 2 && n != 2) throw Skip(); if (mode && n > 5) throw Skip(); std::pair<int, int> b; for (int w = 0; w < 4; w++) { static const int M_[] = {0, 1, 20, 300}; Case c = prob(k, n, me, ET[to], 0); double t = c.ts[0], u = c.t0 + 0.05 * (t - c.t0); c.ts = {u}; int q_ = mode && w == 3 ? 60 : M_[w]; for (int j = 1; j <= q_; j++) c.ts.push_back(u + (t - u) * j / (q_ + 1)); c.ts.push_back(t); auto a = cost(m, c, mode); ++*g_checks;
          if (w == 0) b = a; else if (a.first > 1.05 * b.first + 10 || a.second > 1.05 * b.second + 10) m.bad(fmt("%d intermediate output times raise the number of right-hand-side evaluations from %d (real) and %d (variable) to %d and %d", q_, b.first, b.second, a.first, a.second)); } }, 4, 120});
    F.push_back({"stiffness", "stiff linear and cubic systems with rates 1e2, 1e4, 1e6, 1e8, BDF, 1..20 equations, 3 tolerances, 3 kinds of solve: at most three times (and 150 more than) the evaluations for 1e2", (uint64_t)2 * 5 * 3 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int k = 6 + d.pick(2), n = EN[d.pick(5)], to = d.pick(3), mode = d.x; if (mode && n > 5) throw Skip(); std::pair<int, int> b; for (int w = 1; w <= 4; w++) { Case c = prob(k, n, 100, ET[to], 0); for (auto &x : c.k) x = n == 1 ? pow(100, w) : pow(x, w); auto a = cost(m, c, mode); ++*g_checks; if (w == 1) b = a; else if (a.first > 3 * b.first + 150 || a.second > 3 * b.second + 150) m.bad(fmt("rates up to 1e%d need %d real and %d variable evaluations, rates up to 1e2 %d and %d", 2 * w, a.first, a.second, b.first, b.second)); } }, 1, 120});
    F.push_back({"tolerance", "smooth problems, 2 methods, 1..20 equations, 3 kinds of solve: evaluations for tolerance 1e-10 at most 14 (BDF) or 6 (ADAMS) times those for 1e-4, which a method of too low order exceeds", (uint64_t)5 * 2 * 5 * 2 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int k = d.pick(5), hard = d.pick(2), n = EN[d.pick(5)], me = 100 + d.pick(2), mode = d.x; if (k == 2 && n != 2) throw Skip(); if (mode && n > 5) throw Skip(); auto b = cost(m, prob(k, n, me, 1e-4, hard), mode), a = cost(m, prob(k, n, me, 1e-10, hard), mode); ++*g_checks; double f = me == 100 ? 14 : 6; if (a.first > f * b.first + 60 || a.second > f * b.second + 60) m.bad(fmt("tolerance 1e-10 needs %d real and %d variable evaluations, 1e-4 only %d and %d", a.first, a.second, b.first, b.second)); }, 2, 120});
    F.push_back({"limits", "every solve again with the step limit set to the number of evaluations it took (which suffices), to 100 times that and to the largest integer: same evaluations, same results", (uint64_t)8 * 3 * 2 * 3 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int k = d.pick(8), n = EN[d.pick(3)], me = 100 + d.pick(2), to = d.pick(3), mode = d.x; if (k == 2 && n != 2) throw Skip(); Case c = prob(k, n, me, ET[to], 1); auto b = cost(m, c, mode); for (int w = 0; w < 3; w++) { c.maxn = w == 0 ? std::max(b.first, 1) : w == 1 ? 100 * b.first + 1 : 2147483647; auto a = cost(m, c, mode); ++*g_checks; if (a != b) m.bad(fmt("with step limit %d the solve takes %d and %d evaluations instead of %d and %d", c.maxn, a.first, a.second, b.first, b.second)); } }, 4, 120});
  }
  if (sel == "C12") xfam(0);
  if (sel == "C13") xfam(1);
  if (sel == "C14") xfam(2);
  if (sel == "C13" || sel == "C14") {
    bool par = sel == "C14"; int nt = th ? 6 : 3, ng = th ? NGRID : 4, nsel = th ? 6 : 5;
    (void)nsel; static const int NPS[] = {1, 2, 3, 4, 5, 6, 7, 8, 13};
    auto run = [=](Machine &m, Case c) { std::vector<int> a; for (double v : par ? c.p : c.y0) a.push_back(m.leaf(v)); auto dd = use_sens(m, c, par, a); for (int k : dd) { m.grad_check(k); ratios(m, c, par ? KPD : KY0D, k); } };
    if (!par) F.push_back({"solves", fmt("%zu (problem, number of equations) pairs x 2 methods x 3 start times x %d grids x forward/backward x %d tolerances x 2 layouts; value and all derivatives of every solution component", PN->size(), ng, nt), (uint64_t)PN->size() * 2 * 3 * ng * 2 * nt * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); auto pn = (*PN)[d.pick(PN->size())]; int me = 100 + d.pick(2); double t0 = T0[d.pick(3)]; int g = d.pick(ng); bool back = d.pick(2); int to = d.pick(nt), lay = d.x; if (pn.first == 4 && back) throw Skip(); if (!th && pn.second == 10 && (i / 64) % 4) throw Skip();
        run(m, mk(pn.first, pn.second, 1 + i % 3, me, t0, g, (back ? -1 : 1) * (pn.first == 4 ? 0.4 : pn.first == 9 && back ? 0.3 : 1.2), TOLS[to][0], TOLS[to][1], lay, to + g)); }, 16, 240});
    else F.push_back({"solves", fmt("%zu (problem, number of equations) pairs x 1..8 and 13 parameters x 2 methods x %d grids x forward/backward x %d tolerances (start times and layouts alternate); value and all derivatives of every solution component", PN->size(), ng, nt), (uint64_t)PN->size() * 9 * 2 * ng * 2 * nt,
      [=](uint64_t i, Machine &m) { Idx d(i); auto pn = (*PN)[d.pick(PN->size())]; int np = NPS[d.pick(9)]; int me = 100 + d.pick(2); int g = d.pick(ng); bool back = d.pick(2); int to = d.x; if (pn.first == 4 && back) throw Skip(); if (np < minpar(pn.first)) throw Skip(); if (!th && (pn.second == 10 || np == 13) && (i / 64) % 4) throw Skip();
        run(m, mk(pn.first, pn.second, np, me, T0[i % 3], g, (back ? -1 : 1) * (pn.first == 4 ? 0.4 : pn.first == 9 && back ? 0.3 : 1.2), TOLS[to][0], TOLS[to][1], (i / 2) % 2, to + g)); }, 16, 240});
    if (!par) F.push_back({"rhs-jacobian", fmt("%zu (problem, number of equations) pairs x 3 times x 4 states x {alone, before, after, between operations, in a nested environment}: the Jacobian of the right-hand side, and everything recorded around it", PN->size()), (uint64_t)PN->size() * 3 * 4 * 5,
      [=](uint64_t i, Machine &m) { Idx d(i); auto pn = (*PN)[d.pick(PN->size())]; double t = T0[d.pick(3)]; int st = d.pick(4), how = d.x, n = pn.second; auto p = params(pn.first, std::max(minpar(pn.first), 1 + st), st); auto y = state(pn.first, n, st, 1);
        int a = m.leaf(0.7), b = m.leaf(-1.3), e = -1; if (how >= 2) { e = m.vv(MUL, a, b); e = m.un(EXP, e); } if (how == 4) fz_begin();
        std::vector<double> J(n * n, 1e300), y0 = y; fz_ode_setup(pn.first, p.size(), p.data()); m.say("Jacobian of problem %d n=%d at t = %.17g", pn.first, n, t); fz_ode_jac(t, n, y.data(), J.data());
        Prob P; P.pr = pn.first; P.n = n; Du::k = n; for (double v : p) P.p.push_back(Du(v)); Vd Y, Fv(n); for (int k = 0; k < n; k++) { Du v((ld)y[k]); v.d[k] = 1; Y.push_back(v); } rhs(P, t, Y, Fv); ld big = 0; for (auto &f : Fv) for (int k = 0; k < n; k++) big = std::max(big, fabsl(f.d[k]));
        for (int r = 0; r < n; r++) for (int k = 0; k < n; k++) { ++*g_checks; if (!(fabsl(J[r + k * n] - Fv[r].d[k]) <= 1e-12L * big)) m.bad(fmt("d f%d / d y%d is %.17g, expected %.17Lg", r + 1, k + 1, J[r + k * n], Fv[r].d[k])); }
        if (y != y0) m.bad("the state was changed"); m.values_check("by the Jacobian of a right-hand side");
        if (how == 4) fz_end(); if (how == 1 || how >= 3) { int w = m.vv(ADD, a, b); if (e >= 0) w = m.vv(MUL, w, e); m.grad_check(w); } else if (how == 2) m.grad_check(e); }, 64, 60});
    F.push_back({"scaled", "states of size 1e4 and 1e-6, tolerance pairs dominating each other either way", (uint64_t)2 * 4 * 3 * 3 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int me = 100 + d.pick(2), n = NS[d.pick(4)], wh = d.pick(3), g = d.pick(3), np = 1 + d.x; Case c;
        if (wh == 0) c = mk(0, n, np, me, 0, g, 1, 1e-10, 1e-5, 0, 0, 1e4); else if (wh == 1) c = mk(10, n, np, me, 0, g, 2, 1e-7, 1e-13, 0, 0, 2e-6); else c = mk(0, n, np, me, -2, g, 1, 1e-8, 1e-7, 0, 1, 1e6);
        run(m, c); }, 16, 240});
    F.push_back({"histories", "every sequence of 3 sensitivity solves over {1, 3} equations x {BDF, ADAMS} x {1, 4} parameters x 2 tolerances with the gradients taken only at the end (in both orders)", (uint64_t)16 * 16 * 16,
      [=](uint64_t i, Machine &m) { Idx d(i); std::vector<int> ends; for (int k = 0; k < 3; k++) { Idx q_(d.pick(16)); int n = q_.pick(2) ? 3 : 1, me = 100 + q_.pick(2), np = q_.pick(2) ? 4 : 1, to = q_.x ? 0 : 2; Case c = mk(k == 1 ? 9 : 0, n, np, me, 0, 1, 0.9, TOLS[to][0], TOLS[to][1], 0, k); std::vector<int> a; for (double v : par ? c.p : c.y0) a.push_back(m.leaf(v)); auto dd = use_sens(m, c, par, a); ends.push_back(dd.back()); ends.push_back(dd[0]); }
        m.values_check("by later solves"); if (i % 2) std::reverse(ends.begin(), ends.end()); for (int k : ends) m.grad_check(k); }, 16, 240});
  }
  if (sel == "C15") {
    // upstream: how the inputs of the solve are computed; downstream: what is made of the solution
    auto up = [](Machine &m, int u, int k) { std::vector<int> a; int z = m.leaf(0.6), w = m.leaf(0.8); for (int i = 0; i < k; i++) switch (u) { case 0: a.push_back(m.leaf(0.5 + 0.1 * i)); break; case 1: a.push_back(m.un(EXP, m.vd(MUL, z, -0.2 * (i + 1)))); break; case 2: a.push_back(z); break; case 3: a.push_back(i % 2 ? m.vv(MUL, z, w) : w); break; case 4: a.push_back(i ? m.vv(MUL, a.back(), w) : m.un(SQRT, z)); break; default: a.push_back(m.dot(0, {z, w}, {w, i ? a[0] : z}, {})); } return a; };
    auto down = [](Machine &m, int dn, const std::vector<int> &y) { switch (dn) { case 0: return y.back(); case 1: return m.dot(0, y, y, {}); case 2: return m.vv(MUL, y[0], y.back()); case 3: return m.red(0, y); case 4: return m.un(SIN, m.vv(ADD, y.back(), y[0])); default: return m.vv(MUL, m.red(1, y), 0); } };
    F.push_back({"compose", "solves with variable initial state or parameters: 6 upstream programs x 6 downstream programs x 9 contexts (existing variables, stale adjoints, nested environments 1, 2, 12 deep, reused storage, 1200 variables) x {1, 2, 3} equations x {1, 2, 5} inputs x {BDF, ADAMS}; all gradients, all pre-existing values and adjoints, and the nesting state", (uint64_t)6 * 6 * NCTX * 2 * 3 * (th ? 2 : 1),
      [=](uint64_t i, Machine &m) { Idx d(i); int u = d.pick(6), dn = d.pick(6), cx = d.pick(NCTX); bool par = d.pick(2); int n = 1 + d.pick(3), me = 100 + (th ? d.x : (i + u) % 2); int np = par ? (n == 1 ? 2 : n == 2 ? 1 : 5) : 1;
        Ctx x(m, cx); int lo = m.n.size(); auto a = up(m, u, par ? np : n); x.before(); Case c = mk(i % 2 ? 9 : 0, n, np, me, 0.25, 1, 0.8, 1e-9, 1e-11, i % 2, 0); auto y = use_sens(m, c, par, a); x.after(); int z = down(m, dn, y); m.values_check("by the solve");
        m.grad_check(z); m.grad_check(y[0]); m.grad_check(lo); m.grad_check(z); x.finish(); }, 16, 240});
    F.push_back({"chained", "the solution of one solve is the initial state or the parameters of the next (3 kinds of chain, 2 methods, 3 sizes), and two solves sharing their inputs; gradients through both", (uint64_t)4 * 2 * 2 * 3 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int kind = d.pick(4), m1 = 100 + d.pick(2), m2 = 100 + d.pick(2), n = 1 + d.pick(3); bool nest = d.x; if (nest) { m.say("begin"); fz_begin(); }
        std::vector<int> a; for (int k = 0; k < n; k++) a.push_back(m.leaf(0.5 + 0.2 * k)); Case c1 = mk(9, n, n, m1, 0, 1, 0.7, 1e-9, 1e-11, 0, 0), c2 = mk(0, n, n, m2, 0.7, 1, 0.7, 1e-9, 1e-11, 0, 1);
        auto y = use_sens(m, c1, kind & 1, a); std::vector<int> b = kind == 3 ? a : std::vector<int>(y.end() - n, y.end()); auto y2 = use_sens(m, c2, kind == 2 || kind == 3, b); int z = m.vv(MUL, y2.back(), y[0]); m.values_check("by the second solve");
        m.grad_check(z); m.grad_check(y2[0]); m.grad_check(y.back()); m.grad_check(z); if (nest) { m.say("end"); fz_end(); } }, 4, 240});
    F.push_back({"solves-in-solves", "right-hand sides that solve an ODE themselves, within expressions: 3 upstream programs x 3 downstream programs x 1..4 equations inside and outside x variable initial state/parameters x 2 methods x {same level, nested environment}; the data solve of the same problem, all values and gradients", (uint64_t)3 * 3 * 4 * 2 * 2 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int u = 2 * d.pick(3), dn = 2 * d.pick(3), n = 1 + d.pick(4); bool par = d.pick(2); int me = 100 + d.pick(2); bool nest = d.x; if (nest) { m.say("begin"); fz_begin(); } Case c; c.pr = 26; c.n = n; c.method = me; c.rtol = 1e-6; c.atol = 1e-8; c.p = {1, 0.5}; for (int j = 0; j < n; j++) c.k.push_back(0.5 + 0.7 * j); c.y0 = state(26, n, 0, 1); c.ts = {0.4, 1};
        auto a = up(m, u, par ? 2 : n); auto y = use_sens(m, c, par, a); int z = down(m, dn, y); m.values_check("by the solve"); m.grad_check(z); m.grad_check(y[0]); m.grad_check(y.back()); m.grad_check(z); if (nest) { m.say("end"); fz_end(); } use_data(m, c); }, 1, 240});
    F.push_back({"in-functional", "gradient and jacobian of functions that solve ODEs, in 6 contexts, twice each", (uint64_t)2 * 6 * 2 * 3 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); bool jac = d.pick(2); int cx = d.pick(6); bool par = d.pick(2); int n = 1 + d.pick(3), dn = d.x; Ctx x(m, cx);
        for (int rep = 0; rep < 2; rep++) { x.before(); Call f; f.outer = &m; f.x = {0.7, 0.9, 0.4}; f.body = [&](Machine &in) { int e = in.vv(MUL, 0, 1); std::vector<int> a = {e, 2, 1}; a.resize(par ? 2 : n); Case c = mk(9, n, 2, 100 + rep, 0, 1, 0.6, 1e-9, 1e-11, 0, 0); auto y = use_sens(in, c, par, a); int z = down(in, dn, y); f.out = {z, y[0], 1}; if (!jac) f.out.resize(1); };
          if (jac) f.jacobian(3); else f.gradient(false); x.after(); } x.finish(); }, 4, 240});
    F.push_back({"nested", "solves inside nested environments that are left and re-entered (depth 1..3), pre-existing solutions outside stay usable", (uint64_t)3 * 2 * 2 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int dep = 1 + d.pick(3); bool par = d.pick(2); int me = 100 + d.pick(2), n = 1 + d.x; auto one = [&](double s) { std::vector<int> a; for (int k = 0; k < (par ? 2 : n); k++) a.push_back(m.leaf(s + 0.1 * k)); auto y = use_sens(m, mk(0, n, 2, me, 0, 1, 0.5, 1e-8, 1e-10, 0, 0), par, a); return down(m, 1, y); };
        int z0 = one(0.5); for (int rep = 0; rep < 2; rep++) { std::vector<size_t> mk_; for (int k = 0; k < dep; k++) { m.say("begin"); fz_begin(); mk_.push_back(m.n.size()); int z = one(0.7 + 0.2 * rep); m.grad_check(z); } while (!mk_.empty()) { m.say("end"); fz_end(); m.n.resize(mk_.back()); mk_.pop_back(); m.values_check("by leaving"); m.grad_check(z0); } int z1 = one(0.9); m.grad_check(z1); m.grad_check(z0); } }, 4, 240});
  }
}
#endif
