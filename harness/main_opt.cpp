// C25: options set through user-defined extensions of cvodes_options
#define FAULT_PART
#include "explore.h"
#include "fam_ode.cpp"
extern "C" {
#include <cvodes/cvodes.h>
#include <cvodes/cvodes_diag.h>
#include <cvodes/cvodes_bandpre.h>
#include <nvector/nvector_serial.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sunlinsol/sunlinsol_band.h>
#include <sunnonlinsol/sunnonlinsol_newton.h>
void fz_opt_hook(void *mem);
}
int g_cap = 0, g_open = 0; int Du::k = 0; double *g_ratio; int *g_effort; double CTOL = 0;
// what a solve did, seen from its right-hand side and its option setter
struct Obs { void *mem = nullptr; int hooks = 0, before = 0, base = 0; double tcur = NAN; long nst = 0; int qmax = 0; double hlo = INFD, hhi = 0, hfirst = 0, far = 0; int dir = 1; bool any = false; std::vector<double> t; bool diag = false; long nni = 0, nset = 0, nje = 0, nfls = 0, nstl = 0, netf = 0, ncfn = 0; } O;
static int g_mode; static Case *C; static Machine *M; static std::function<void(void *)> g_hook; static std::vector<std::function<void()>> g_after;
static SUNContext ctx() { static SUNContext c; if (!c && SUNContext_Create(nullptr, &c)) abort(); return c; }
static void need(bool b, const std::string &w) { ++*g_checks; if (!b) M->bad(w); }
static void ok(int rc, const char *w) { need(rc == 0, fmt("%s refuses a legal setting (%d)", w, rc)); }
static void refused(int rc, const char *w) { need(rc != 0, fmt("%s accepts an illegal setting", w)); }
#define OK(call) ok(call, #call)
#define REFUSED(call) refused(call, #call)
void fz_opt_hook(void *mem) { O.mem = mem; O.hooks++; O.before = fz_rhs_calls - O.base; CVodeGetCurrentTime(mem, &O.tcur); CVodeGetNumSteps(mem, &O.nst);
  if (fz_opt_own) { OK(CVodeSStolerances(mem, C->rtol, C->atol)); OK(CVodeSetMaxNumSteps(mem, C->maxn)); } if (g_hook) g_hook(mem); }
static void look() { long n; if (!O.mem || CVodeGetNumSteps(O.mem, &n) || n <= O.nst) return; O.nst = n; double h; int q; CVodeGetLastStep(O.mem, &h); CVodeGetLastOrder(O.mem, &q); if (n == 1) CVodeGetActualInitStep(O.mem, &O.hfirst); O.qmax = std::max(O.qmax, q); O.hlo = std::min(O.hlo, fabs(h)); O.hhi = std::max(O.hhi, fabs(h)); CVodeGetNumNonlinSolvIters(O.mem, &O.nni); CVodeGetNumLinSolvSetups(O.mem, &O.nset); if (!O.diag) { CVodeGetNumJacEvals(O.mem, &O.nje); CVodeGetNumLinRhsEvals(O.mem, &O.nfls); } CVodeGetNumStabLimOrderReds(O.mem, &O.nstl); CVodeGetNumErrTestFails(O.mem, &O.netf); CVodeGetNumNonlinSolvConvFails(O.mem, &O.ncfn); }
static void seen(double t, int, const double *) { if (O.t.size() < 5) O.t.push_back(t); if (!O.any || (t - O.far) * O.dir > 0) O.far = t; O.any = true; look(); }
static void begin(Machine &m, Case &c, std::function<void(void *)> h) { C = &c; M = &m; O = Obs(); O.dir = c.ts.size() && c.ts.back() < c.t0 ? -1 : 1; O.base = fz_rhs_calls; g_hook = h; g_opt = true; fz_seen_fn = seen; }
static void finish(Machine &) { g_opt = false; fz_seen_fn = nullptr; O.mem = nullptr; need(O.hooks == 1, fmt("the option setter is called %d times for one solve", O.hooks)); need(O.before == 0, "the right-hand side is evaluated before the options are set"); need(O.tcur == C->t0, fmt("the option setter sees the time %.17g at the start of a solve from %.17g", O.tcur, C->t0)); for (auto &f : g_after) f(); g_after.clear(); }
static void solve(Machine &m, Case c, int mode, std::function<void(void *)> h) {
  g_mode = mode; begin(m, c, h);
  if (mode == 0) use_data(m, c);
  else { std::vector<int> a; for (double v : mode == 2 ? c.p : c.y0) a.push_back(m.leaf(v)); auto dd = use_sens(m, c, mode == 2, a); for (int k : dd) { m.grad_check(k); ratios(m, c, mode == 2 ? KPD : KY0D, k); } }
  finish(m); }
// everything the solve returns, without judging it
static std::vector<double> outputs(Machine &m, Case c, int mode, bool opt, std::function<void(void *)> h) {
  g_mode = mode; if (opt) begin(m, c, h); int nt = c.ts.size(); std::vector<double> R; fz_ode_setup(c.pr, c.p.size(), c.p.data()); if (c.pr >= 20) fz_ode_consts(c.k.size(), c.k.data()); std::vector<double> y = c.y0;
  m.say("cvodes_sol(%s%s) %s", mode == 0 ? "data" : mode == 1 ? "y0" : "parameters", opt ? ", own options" : "", c.str().c_str());
  if (mode == 0) { R.resize(c.n * nt); if (opt) fz_opt_data(c.t0, c.n, y.data(), nt, c.ts.data(), R.data(), c.method, c.rtol, c.atol, c.maxn); else fz_ode_data(c.t0, c.n, y.data(), nt, c.ts.data(), R.data(), c.method, c.rtol, c.atol, c.maxn, 0); for (double v : y) R.push_back(v); }
  else { fz_begin(); std::vector<int> ra, rd; for (double v : mode == 2 ? c.p : c.y0) { ra.push_back(30000 + (int)ra.size()); fz_var(ra.back(), v); } for (int i = 0; i < c.n * nt; i++) rd.push_back(31000 + i);
    if (mode == 2) { if (opt) fz_opt_par(c.t0, c.n, y.data(), ra.size(), ra.data(), nt, c.ts.data(), rd.data(), c.method, c.rtol, c.atol, c.maxn); else fz_ode_par(c.t0, c.n, y.data(), ra.size(), ra.data(), nt, c.ts.data(), rd.data(), c.method, c.rtol, c.atol, c.maxn, 0); }
    else { if (opt) fz_opt_y0(c.t0, c.n, ra.data(), nt, c.ts.data(), rd.data(), c.method, c.rtol, c.atol, c.maxn); else fz_ode_y0(c.t0, c.n, ra.data(), nt, c.ts.data(), rd.data(), c.method, c.rtol, c.atol, c.maxn, 0); }
    for (int d : rd) { R.push_back(fz_val(d)); fz_zero_nested(); fz_grad_nested(d); for (int a : ra) R.push_back(fz_adj(a)); } fz_end(); }
  if (opt) finish(m); return R; }
static void same(Machine &m, const std::vector<double> &a, const std::vector<double> &b, const char *w) { M = &m; need(a.size() == b.size(), "different numbers of results"); for (size_t i = 0; i < a.size(); i++) { ++*g_checks; if (memcmp(&a[i], &b[i], 8)) m.bad(fmt("%s: result %zu is %.17g instead of %.17g", w, i, a[i], b[i])); } }
// exact Jacobians of the right-hand sides
static void jac_of(const Case &c, double t, const double *y, double *J) {
  int n = c.n, np = c.p.size(); std::fill(J, J + n * n, 0); auto K = [&](int i) { return i < (int)c.k.size() ? c.k[i] : 0.; };
  switch (c.pr) { case 20: for (int i = 0; i < n; i++) J[i + i * n] = K(i) * cos(K(i) * t) * c.p[i % np]; break; case 21: break; case 22: for (int i = 0; i < n; i++) J[i + i * n] = -K(2); break;
  case 23: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += ((i == k) - 2. / n) * K(k) * ((k == j) - 2. / n); J[i + j * n] = -s; } break;
  case 29: for (int i = 0; i < n; i++) { int q = i % 2 ? i - 1 : i + 1 < n ? i + 1 : -1; J[i + i * n] = -K(0); if (q >= 0) J[i + q * n] = i % 2 ? -K(1) : K(1); } break;
  case 25: case 27: for (int i = 0; i < n; i++) { J[i + i * n] = -K(i); int q = c.pr == 25 ? (i % 2 ? i - 1 : -1) : (i % 2 == 0 && i + 1 < n ? i + 1 : -1); if (q >= 0) J[i + q * n] = 0.9 * K(i) - 0.9 * K(q); } break;
  case 24: for (int i = 0; i < n; i++) J[i + i * n] = -3 * K(i) * y[i] * y[i]; break;
  default: { Prob P; P.pr = c.pr; P.n = n; int old = Du::k; Du::k = n; for (double v : c.p) P.p.push_back(Du(v)); Vd Y(n), F(n); for (int i = 0; i < n; i++) { Y[i] = Du(y[i]); Y[i].d[i] = 1; } rhs(P, t, Y, F); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J[i + j * n] = F[i].d[j]; Du::k = old; } } }
static int g_jcalls, g_jfail;   // g_jfail: 1 recoverably once, 2 for good, 3 recoverably every third time
 static double g_jscale;
static int jac_fn(realtype t, N_Vector y, N_Vector, SUNMatrix A, void *, N_Vector, N_Vector, N_Vector) { g_jcalls++; if (g_jfail == 1 && g_jcalls == 2) return 1; if (g_jfail == 2 && g_jcalls == 2) return -1; if (g_jfail == 3 && g_jcalls % 3 == 2) return 1; int n = C->n; std::vector<double> J(n * n); jac_of(*C, t, NV_DATA_S(y), J.data());
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { double v = g_jscale * J[i + j * n]; if (SUNMatGetID(A) == SUNMATRIX_DENSE) SM_ELEMENT_D(A, i, j) = v; else if (i - j <= SM_LBAND_B(A) && j - i <= SM_UBAND_B(A)) SM_ELEMENT_B(A, i, j) = v; } return 0; }
static int linsys_fn(realtype t, N_Vector y, N_Vector, SUNMatrix A, booleantype jok, booleantype *jcur, realtype gamma, void *, N_Vector, N_Vector, N_Vector) { g_jcalls++; (void)jok; *jcur = SUNTRUE; int n = C->n; std::vector<double> J(n * n); jac_of(*C, t, NV_DATA_S(y), J.data()); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) SM_ELEMENT_D(A, i, j) = (i == j) - gamma * J[i + j * n]; return 0; }
static int jtimes_fn(N_Vector v, N_Vector Jv, realtype t, N_Vector y, N_Vector, void *, N_Vector) { g_jcalls++; int n = C->n; std::vector<double> J(n * n); jac_of(*C, t, NV_DATA_S(y), J.data()); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += J[i + j * n] * NV_DATA_S(v)[j]; NV_DATA_S(Jv)[i] = s; } return 0; }
static int ps_fn(realtype t, N_Vector y, N_Vector, N_Vector r, N_Vector z, realtype gamma, realtype, int, void *) { int n = C->n; std::vector<double> J(n * n); jac_of(*C, t, NV_DATA_S(y), J.data()); for (int i = 0; i < n; i++) NV_DATA_S(z)[i] = NV_DATA_S(r)[i] / (1 - gamma * J[i + i * n]); return 0; }
static N_Vector vec() { N_Vector v = N_VNew_Serial(C->n, ctx()); g_after.push_back([=] { N_VDestroy(v); }); return v; }
static void use_ls(void *mem, SUNLinearSolver L, SUNMatrix A) { g_after.push_back([=] { SUNLinSolFree(L); if (A) SUNMatDestroy(A); }); OK(CVodeSetLinearSolver(mem, L, A)); }
static int ns() { return g_mode == 2 ? (int)C->p.size() : C->n; }
// a linear solver of one's own: builds the matrix (from products if there is none) and eliminates
struct OwnLS { SUNLinearSolver_Type t; void *ad = nullptr; SUNATimesFn at = nullptr; void *pd = nullptr; SUNPSetupFn ps = nullptr; SUNPSolveFn pv = nullptr; N_Vector sl = nullptr; };
static double g_pdev; static const double PDEV = getenv("FZ_PDEV") ? atof(getenv("FZ_PDEV")) : 0.6;
static SUNLinearSolver own_ls(SUNLinearSolver_Type t) { SUNLinearSolver L = SUNLinSolNewEmpty(ctx()); auto o = new OwnLS; o->t = t; L->content = o;
  L->ops->gettype = [](SUNLinearSolver S) { return ((OwnLS *)S->content)->t; }; L->ops->getid = [](SUNLinearSolver) { return SUNLINEARSOLVER_CUSTOM; };
  L->ops->setatimes = [](SUNLinearSolver S, void *d, SUNATimesFn f) { auto o = (OwnLS *)S->content; o->ad = d; o->at = f; return 0; };
  L->ops->setpreconditioner = [](SUNLinearSolver S, void *d, SUNPSetupFn a, SUNPSolveFn b) { auto o = (OwnLS *)S->content; o->pd = d; o->ps = a; o->pv = b; return 0; };
  L->ops->initialize = [](SUNLinearSolver) { return 0; }; L->ops->setup = [](SUNLinearSolver S, SUNMatrix) { auto o = (OwnLS *)S->content; return o->ps ? o->ps(o->pd) : 0; };
  L->ops->numiters = [](SUNLinearSolver) { return 1; }; L->ops->resid = [](SUNLinearSolver) { return (N_Vector) nullptr; }; L->ops->resnorm = [](SUNLinearSolver) { return 0.; };
  L->ops->free = [](SUNLinearSolver S) { delete (OwnLS *)S->content; S->content = nullptr; SUNLinSolFreeEmpty(S); return 0; };
  L->ops->solve = [](SUNLinearSolver S, SUNMatrix A, N_Vector x, N_Vector b, realtype) { auto o = (OwnLS *)S->content; int n = NV_LENGTH_S(b); std::vector<double> M_(n * n), r(n); for (int i = 0; i < n; i++) r[i] = NV_DATA_S(b)[i];
    if (A) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) M_[i + j * n] = SM_ELEMENT_D(A, i, j);
    else { N_Vector e = N_VClone(b), z = N_VClone(b); double sc = N_VMaxNorm(b); if (sc == 0) sc = 1; for (int j = 0; j < n; j++) { N_VConst(0, e); NV_DATA_S(e)[j] = sc; int rc = o->at(o->ad, e, z); if (rc) { N_VDestroy(e); N_VDestroy(z); return rc < 0 ? SUNLS_ATIMES_FAIL_UNREC : SUNLS_ATIMES_FAIL_REC; } for (int i = 0; i < n; i++) M_[i + j * n] = NV_DATA_S(z)[i] / sc; }
      if (o->pv) { int rc = o->pv(o->pd, b, z, 1e-3, SUN_PREC_LEFT); if (rc) { N_VDestroy(e); N_VDestroy(z); return rc < 0 ? SUNLS_PSOLVE_FAIL_UNREC : SUNLS_PSOLVE_FAIL_REC; } double w = 0; std::vector<double> q_(n); for (int i = 0; i < n; i++) q_[i] = NV_DATA_S(z)[i];      // one Richardson sweep from the preconditioned guess, the rest exactly
          for (int i = 0; i < n; i++) { w = r[i]; for (int j = 0; j < n; j++) w -= M_[i + j * n] * q_[j]; NV_DATA_S(z)[i] = w; } for (int i = 0; i < n; i++) r[i] = NV_DATA_S(z)[i]; NV_DATA_S(x); std::vector<double> s(r); std::vector<double> B(M_); for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabs(B[i + k * n]) > fabs(B[p + k * n])) p = i; for (int j = 0; j < n; j++) std::swap(B[k + j * n], B[p + j * n]); std::swap(s[k], s[p]); for (int i = k + 1; i < n; i++) { double f = B[i + k * n] / B[k + k * n]; for (int j = k; j < n; j++) B[i + j * n] -= f * B[k + j * n]; s[i] -= f * s[k]; } } for (int k = n - 1; k >= 0; k--) { for (int j = k + 1; j < n; j++) s[k] -= B[k + j * n] * s[j]; s[k] /= B[k + k * n]; } for (int i = 0; i < n; i++) NV_DATA_S(x)[i] = q_[i] + s[i]; { double a = 0, e2 = 0; for (int i = 0; i < n; i++) { a = std::max(a, fabs(NV_DATA_S(x)[i])); e2 = std::max(e2, fabs(s[i])); } if (a > 0) g_pdev = std::max(g_pdev, e2 / a); } N_VDestroy(e); N_VDestroy(z); return 0; }
      N_VDestroy(e); N_VDestroy(z); }
    for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabs(M_[i + k * n]) > fabs(M_[p + k * n])) p = i; for (int j = 0; j < n; j++) std::swap(M_[k + j * n], M_[p + j * n]); std::swap(r[k], r[p]); if (M_[k + k * n] == 0) return SUNLS_LUFACT_FAIL; for (int i = k + 1; i < n; i++) { double f = M_[i + k * n] / M_[k + k * n]; for (int j = k; j < n; j++) M_[i + j * n] -= f * M_[k + j * n]; r[i] -= f * r[k]; } }
    for (int k = n - 1; k >= 0; k--) { for (int j = k + 1; j < n; j++) r[k] -= M_[k + j * n] * r[j]; r[k] /= M_[k + k * n]; } for (int i = 0; i < n; i++) NV_DATA_S(x)[i] = r[i]; return 0; };
  return L; }
// a nonlinear solver of one's own: plain functional iteration
struct OwnNLS { SUNNonlinSolSysFn f = nullptr; SUNNonlinSolConvTestFn t = nullptr; void *td = nullptr; int it = 0, maxit = 3; };
static SUNNonlinearSolver own_nls() { SUNNonlinearSolver L = SUNNonlinSolNewEmpty(ctx()); auto o = new OwnNLS; L->content = o;
  L->ops->gettype = [](SUNNonlinearSolver) { return SUNNONLINEARSOLVER_FIXEDPOINT; }; L->ops->setsysfn = [](SUNNonlinearSolver S, SUNNonlinSolSysFn f) { ((OwnNLS *)S->content)->f = f; return 0; };
  L->ops->setctestfn = [](SUNNonlinearSolver S, SUNNonlinSolConvTestFn f, void *d) { auto o = (OwnNLS *)S->content; o->t = f; o->td = d; return 0; }; L->ops->setmaxiters = [](SUNNonlinearSolver S, int k) { ((OwnNLS *)S->content)->maxit = k; return 0; };
  L->ops->getcuriter = [](SUNNonlinearSolver S, int *k) { *k = ((OwnNLS *)S->content)->it; return 0; };
  L->ops->solve = [](SUNNonlinearSolver S, N_Vector, N_Vector yc, N_Vector w, realtype tol, booleantype, void *mem) { auto o = (OwnNLS *)S->content; N_Vector p = N_VClone(yc), d = N_VClone(yc); int rc = SUN_NLS_CONV_RECVR; for (o->it = 0; o->it < o->maxit; o->it++) { N_VScale(1, yc, p); int r = o->f(yc, d, mem); if (r) { rc = r; break; } N_VScale(1, d, yc); N_VLinearSum(1, yc, -1, p, d); r = o->t(S, yc, d, tol, w, o->td); if (r == SUN_NLS_SUCCESS) { rc = 0; break; } if (r != SUN_NLS_CONTINUE) { rc = r; break; } } N_VDestroy(p); N_VDestroy(d); return rc; };
  L->ops->free = [](SUNNonlinearSolver S) { delete (OwnNLS *)S->content; SUNNonlinSolFreeEmpty(S); return 0; }; g_after.push_back([=] { SUNNonlinSolFree(L); }); return L; }
static int ewt_same(N_Vector y, N_Vector w, void *) { for (int i = 0; i < C->n; i++) NV_DATA_S(w)[i] = 1.0 / (C->rtol * fabs(NV_DATA_S(y)[i]) + C->atol); return 0; }
static int ewt_bad(N_Vector, N_Vector, void *) { return -1; }
static void quiet(int, const char *, const char *, char *, void *) {}
static std::vector<std::pair<double, std::vector<double>>> g_pat; static int pat_fn(realtype t, N_Vector, realtype *g, void *) { double u = (t - C->t0) / (C->ts.back() - C->t0); for (size_t j = 0; j < g_pat.size(); j++) { g[j] = g_pat[j].first; for (double r : g_pat[j].second) g[j] *= r > 2 ? std::max(0.0, u - (r - 3)) : u - r; } return 0; }
static int g_evn = 1, g_evw = 0; static double g_evs = 1, g_evt; static int ev_fn(realtype t, N_Vector, realtype *g, void *) { for (int j = 0; j < g_evn; j++) g[j] = j == g_evw ? g_evs * (t - g_evt) : j % 2 ? -1 - 0.1 * sin(t) : 1 + 0.1 * cos(9 * t); return 0; }
static long g_cn; static double g_cc[2]; static std::string g_cbad; static int con_fn(realtype, N_Vector, realtype *g, void *) { g[0] = 1; void *q = O.mem; long n; if (!q || CVodeGetNumSteps(q, &n) || n == g_cn) return 0; g_cn = n; double t; CVodeGetCurrentTime(q, &t); N_Vector v = N_VNew_Serial(C->n, ctx()); if (CVodeGetDky(q, t, 0, v) == 0) for (int k = 0; k < C->n; k++) { double x = NV_DATA_S(v)[k]; if (!(g_cc[k] * x >= -1e-3 * C->atol) && g_cbad.empty()) g_cbad = fmt("component %d after step %ld (t = %.17g) is %.17g, which violates its constraint", k + 1, n, t, x); } N_VDestroy(v); ++*g_checks; return 0; }
static double g_cross; static int root_fn(realtype t, N_Vector, realtype *g, void *) { g[0] = t - g_cross; return 0; }
static std::vector<double> outs(int g, double t0, double T) { if (g == 0) return {t0 + T}; if (g == 1) return {t0 + 0.3 * T, t0 + 0.55 * T, t0 + T}; std::vector<double> r; for (int k = 1; k <= 30; k++) r.push_back(t0 + T * k / 30); return r; }
static const int NKIND = 9; static const double OT[][2] = {{1e-5, 1e-7}, {1e-8, 1e-10}, {1e-3, 1e-5}};
static Case kase(int k, int n, int me, bool back, int to, int g = 1) {
  Case c; c.n = n; c.method = 100 + me; c.rtol = OT[to][0]; c.atol = OT[to][1]; c.t0 = back ? 1.02 : 0.5; double T = back ? -1.6 : 1.6; c.p = {1, 0.5};
  switch (k) { case 0: c.pr = 0; c.p = {0.7, 1.1, 0.4}; c.y0 = state(0, n, 0, 1); break; case 1: c.pr = 9; c.y0 = state(9, n, 1, 1); if (back) T = -0.3; break;
  case 2: c.pr = 20; for (int j = 0; j < n; j++) { c.k.push_back(j == n / 2 ? 12 : 0.4); c.y0.push_back(j % 2 ? -0.7 : 0.6); } break; case 3: c.pr = 21; c.k = {1, 0.5, 6}; c.p = {1, 0.4, -0.3}; c.y0 = state(21, n, 0, 1); break;
  case 4: c.pr = 22; c.k = {0.31, 100, back ? 0 : 0.8, 30}; c.y0 = state(22, n, 0, 1); break;
  default: if (back) throw Skip(); c.pr = k == 5 ? 23 : k == 6 ? 24 : k == 7 ? 25 : 27; c.p = {1, 0.9, 1.2}; std::vector<long double> z; long double s = 0; for (int j = 0; j < n; j++) { c.k.push_back(me ? 30 : pow(1e4, n == 1 ? 1 : j / (n - 1.0))); z.push_back(c.p[j % 3] * sinl(c.t0 + j + 1)); s += z.back(); } for (int j = 0; j < n; j++) c.y0.push_back(k == 5 ? (double)(z[j] - 2.L / n * s) : k == 7 ? (double)(z[j] + (j % 2 ? 0.9L * z[j - 1] : 0)) : k == 8 ? (double)(z[j] + (j % 2 == 0 && j + 1 < n ? 0.9L * c.p[(j + 1) % 3] * sinl(c.t0 + j + 2) : 0)) : (double)(c.p[j % 3] * ((j + 1) % 2 ? 1 : -1) * (1.5L + 0.5L * sinl(c.t0 + j + 1)))); }
  c.ts = outs(g, c.t0, T); return c; }
static std::pair<int, int> width() { int w = C->pr == 0 ? 1 : C->pr == 9 || C->pr == 23 ? C->n - 1 : 0, q = C->n - 1; return {std::min(q, C->pr == 25 ? 1 : w), std::min(q, C->pr == 27 ? 1 : w)}; }    // of the Jacobian, below and above the diagonal
struct Opt { const char *name; std::function<void(void *)> set; std::function<void()> judge; double slack = 1; bool like = false; };   // like: takes about as many steps as the default; slack: small steps or low orders add up more local errors
static double span() { return fabs(C->ts.back() - C->t0); }
static std::vector<Opt> mild() {      // options that leave every solve feasible, and what shows that they took effect
  auto none = [] {}; std::vector<Opt> v;
  auto hmax = [&](const char *nm, double f) { v.push_back({nm, [=](void *m) { OK(CVodeSetMaxStep(m, f * span())); }, [=] { need(O.hhi <= f * span() * (1 + 1e-10), fmt("a step of %.17g was taken, the largest allowed is %.17g", O.hhi, f * span())); need(O.nst + 1 >= 0.999 / f, "fewer steps than the largest allowed one needs"); size_t j = 0; while (j < O.t.size() && O.t[j] == C->t0) j++; if (j < O.t.size()) need(fabs(O.t[j] - C->t0) <= f * span() * (1 + 1e-10) + 1e-15 * fabs(C->t0), fmt("a first step of %.17g is tried, the largest allowed is %.17g", fabs(O.t[j] - C->t0), f * span())); }, 20}); };
  hmax("maximum step T/8", 0.125); hmax("maximum step T/60", 1 / 60.); hmax("maximum step T/500", 1 / 500.);
  auto h0 = [&](const char *nm, double f) { v.push_back({nm, [=](void *m) { OK(CVodeSetInitStep(m, (C->pr >= 23 ? std::min(f, C->rtol < 1e-7 ? 1e-7 : 1e-3) : f) * (C->ts.back() - C->t0))); }, [=] { double h = (C->pr >= 23 ? std::min(f, C->rtol < 1e-7 ? 1e-7 : 1e-3) : f) * (C->ts.back() - C->t0); need(O.hfirst == 0 || fabs(O.hfirst) <= fabs(h) * (1 + 1e-14), fmt("the first step is %.17g instead of %.17g", O.hfirst, h)); size_t j = 0; while (j < O.t.size() && O.t[j] == C->t0) j++; if (j < O.t.size()) need(fabs(O.t[j] - C->t0) <= fabs(h) + 1e-15 * fabs(C->t0) && (O.t[j] - C->t0) * h > 0, fmt("the first step is tried to %.17g, %.17g is asked for", O.t[j], C->t0 + h)); }}); };
  h0("initial step 1e-9 T", 1e-9); h0("initial step 1e-4 T", 1e-4); h0("initial step T/20", 0.05);
  v.push_back({"stop time at the last output", [](void *m) { OK(CVodeSetStopTime(m, C->ts.back())); }, [] { need(!((O.far - C->ts.back()) * O.dir > 0), fmt("the right-hand side is evaluated at %.17g, beyond the stop time %.17g", O.far, C->ts.back())); }});
  v.push_back({"stop time just beyond the last output", [](void *m) { OK(CVodeSetStopTime(m, C->ts.back() + 0.01 * (C->ts.back() - C->t0))); }, [] { double s = C->ts.back() + 0.01 * (C->ts.back() - C->t0); need(!((O.far - s) * O.dir > 0), fmt("the right-hand side is evaluated at %.17g, beyond the stop time %.17g", O.far, s)); }});
  for (int q : {1, 2, 3, 4, 5, 8, 12}) v.push_back({q == 1 ? "order 1" : q == 2 ? "order at most 2" : q == 3 ? "order at most 3" : q == 4 ? "order at most 4" : q == 5 ? "order at most 5" : q == 8 ? "order at most 8" : "order at most 12", [=](void *m) { if (q > 5 && C->method == 100) return; OK(CVodeSetMaxOrd(m, q)); }, [=] { need(O.qmax <= q, fmt("order %d is used, at most %d is allowed", O.qmax, q)); }, q == 1 ? 40. : q < 5 ? 15. : 1.});
  for (int k : {2, 5, 20}) v.push_back({k == 2 ? "2 nonlinear iterations" : k == 5 ? "5 nonlinear iterations" : "20 nonlinear iterations", [=](void *m) { OK(CVodeSetMaxNonlinIters(m, k)); }, none});
  for (double k : {0.01, 0.3}) v.push_back({k < 0.1 ? "convergence coefficient 0.01" : "convergence coefficient 0.3", [=](void *m) { OK(CVodeSetNonlinConvCoef(m, k)); }, none});
  v.push_back({"linear solver setup at every step", [](void *m) { OK(CVodeSetLSetupFrequency(m, 1)); }, [] { need(O.nset + 2 >= O.nst, fmt("%ld setups of the linear solver in %ld steps", O.nset, O.nst)); }});
  v.push_back({"linear solver setup every 50 steps", [](void *m) { OK(CVodeSetLSetupFrequency(m, 50)); }, none});
  v.push_back({"new Jacobian at every setup", [](void *m) { OK(CVodeSetJacEvalFrequency(m, 1)); }, [] { need(O.nje + 2 + O.netf + O.ncfn >= 0.7 * O.nset, fmt("%ld Jacobians in %ld setups", O.nje, O.nset)); }});
  v.push_back({"Jacobians of any age", [](void *m) { OK(CVodeSetJacEvalFrequency(m, 100000)); }, none});
  v.push_back({"stability limit detection", [](void *m) { if (C->method == 100) OK(CVodeSetStabLimDet(m, SUNTRUE)); else REFUSED(CVodeSetStabLimDet(m, SUNTRUE)); }, none});
  v.push_back({"many error test and convergence failures allowed", [](void *m) { OK(CVodeSetMaxErrTestFails(m, 50)); OK(CVodeSetMaxConvFails(m, 50)); }, none});
  v.push_back({"no solution scaling", [](void *m) { if (C->method == 100) OK(CVodeSetLinearSolutionScaling(m, SUNFALSE)); else REFUSED(CVodeSetLinearSolutionScaling(m, SUNFALSE)); }, none});
  v.push_back({"exact Jacobian", [](void *m) { g_jcalls = 0; g_jfail = 0; g_jscale = 1; OK(CVodeSetJacFn(m, jac_fn)); }, [] { need(O.nst < 1 || (g_jcalls > 0 && g_jcalls >= O.nje), "the supplied Jacobian is not used"); need(O.nfls == 0, "right-hand side evaluations for a Jacobian although one is supplied"); }});
  v.push_back({"Jacobian off by a tenth", [](void *m) { g_jcalls = 0; g_jfail = 0; g_jscale = 1.1; OK(CVodeSetJacFn(m, jac_fn)); }, [] { need(O.nst < 1 || g_jcalls > 0, "the supplied Jacobian is not used"); }});
  v.push_back({"Jacobian that fails once", [](void *m) { g_jcalls = 0; g_jfail = 1; g_jscale = 1; OK(CVodeSetJacFn(m, jac_fn)); }, none});
  v.push_back({"linear systems supplied", [](void *m) { g_jcalls = 0; OK(CVodeSetLinSysFn(m, linsys_fn)); }, [] { need(O.nst < 1 || g_jcalls > 0, "the supplied linear systems are not used"); need(O.nfls == 0, "right-hand side evaluations for a Jacobian although linear systems are supplied"); }});
  v.push_back({"band matrix", [](void *m) { SUNMatrix A = SUNBandMatrix(C->n, C->n - 1, C->n - 1, ctx()); use_ls(m, SUNLinSol_Band(vec(), A, ctx()), A); }, none});
  v.push_back({"band matrix of the true width", [](void *m) { auto w = width(); SUNMatrix A = SUNBandMatrix(C->n, w.second, w.first, ctx()); use_ls(m, SUNLinSol_Band(vec(), A, ctx()), A); }, none});
  for (int pre : {0, 1, 2, 3, 4}) v.push_back({pre == 0 ? "matrix-free linear solver" : pre == 1 ? "matrix-free linear solver, exact products" : pre == 2 ? "matrix-free linear solver, own preconditioner" : pre == 3 ? "matrix-free linear solver, band preconditioner" : "matrix-free linear solver, narrow band preconditioner", [=](void *m) { g_jcalls = 0; g_pdev = 0; use_ls(m, own_ls(SUNLINEARSOLVER_ITERATIVE), nullptr); if (pre == 1) OK(CVodeSetJacTimes(m, nullptr, jtimes_fn)); if (pre == 2) OK(CVodeSetPreconditioner(m, nullptr, ps_fn)); if (pre == 3) OK(CVBandPrecInit(m, C->n, C->n - 1, C->n - 1)); if (pre == 4) OK(CVBandPrecInit(m, C->n, width().second, width().first)); }, [=] { if (pre >= 3 && getenv("FZ_LIKE")) { FILE *q = fopen("/tmp/pdev", "a"); fprintf(q, "%g %d %s\n", g_pdev, pre, C->str().c_str()); fclose(q); } if (pre >= 3 && (C->pr == 0 || C->pr == 22 || C->pr == 23 || C->pr == 25 || C->pr == 27)) need(g_pdev < PDEV, fmt("the preconditioner leaves a solution of a linear system that is off by %.3g of its size", g_pdev)); if (pre == 1) need(O.nst < 1 || g_jcalls > 0, "the supplied products are not used"); }});
  v.push_back({"own direct linear solver", [](void *m) { use_ls(m, own_ls(SUNLINEARSOLVER_DIRECT), SUNDenseMatrix(C->n, C->n, ctx())); }, none});
  v.push_back({"own iterative linear solver with a matrix", [](void *m) { use_ls(m, own_ls(SUNLINEARSOLVER_MATRIX_ITERATIVE), SUNDenseMatrix(C->n, C->n, ctx())); }, none});
  v.push_back({"diagonal approximation", [](void *m) { if (C->pr == 23 || C->pr >= 25 || C->pr == 0 || C->pr == 9) return; OK(CVDiag(m)); O.diag = true; }, none});
  v.push_back({"fixed-point iteration", [](void *m) { if (g_mode || C->pr >= 23) return; auto N = own_nls(); OK(CVodeSetNonlinearSolver(m, N)); }, none});
  v.push_back({"fixed-point iteration for state and sensitivities", [](void *m) { if (C->pr >= 23) return; OK(CVodeSetNonlinearSolver(m, own_nls())); if (g_mode) OK(CVodeSetNonlinearSolverSensStg(m, own_nls())); }, none});
  v.push_back({"another Newton solver", [](void *m) { auto N = SUNNonlinSol_Newton(vec(), ctx()); g_after.push_back([=] { SUNNonlinSolFree(N); }); OK(CVodeSetNonlinearSolver(m, N)); if (g_mode) { auto S = SUNNonlinSol_NewtonSens(ns(), vec(), ctx()); g_after.push_back([=] { SUNNonlinSolFree(S); }); OK(CVodeSetNonlinearSolverSensStg(m, S)); } }, none});
  v.push_back({"sensitivity tolerances", [](void *m) { if (!g_mode) return; std::vector<double> a(ns(), C->atol); OK(CVodeSensSStolerances(m, C->rtol, a.data())); }, none});
  v.push_back({"sensitivity tolerances by component", [](void *m) { if (!g_mode) return; std::vector<N_Vector> a; for (int i = 0; i < ns(); i++) { a.push_back(vec()); N_VConst(C->atol, a.back()); } OK(CVodeSensSVtolerances(m, C->rtol, a.data())); }, none});
  v.push_back({"4 nonlinear iterations for sensitivities", [](void *m) { if (g_mode) OK(CVodeSetSensMaxNonlinIters(m, 4)); }, none});
  for (auto &o : v) for (auto n : {"exact Jacobian", "linear systems supplied", "band matrix", "band matrix of the true width", "matrix-free linear solver", "matrix-free linear solver, exact products", "matrix-free linear solver, own preconditioner", "matrix-free linear solver, band preconditioner", "matrix-free linear solver, narrow band preconditioner", "own direct linear solver", "own iterative linear solver with a matrix", "another Newton solver", "linear solver setup at every step", "new Jacobian at every setup"}) if (!strcmp(o.name, n)) o.like = true;
  return v; }
#include "fam_step.h"
int main(int c, char **v) {
  g_ratio = (double *)mmap(0, NGROUP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (getenv("FZ_CTOL")) CTOL = atof(getenv("FZ_CTOL"));
  int rc = explore_main(c, v, [](bool th, const std::string &sel) { Fams F; auto V = std::make_shared<std::vector<Opt>>(mild()); static const int N_[] = {1, 2, 4};
    F.push_back({"plain", "9 kinds of problem x {1, 2, 4} equations x 2 methods x 3 kinds of solve x forward/backward x 2 tolerances x 2 ways to define the option type (extending cvodes_tol, extending cvodes_options): the setter is called once, before the first evaluation, and the results are those of cvodes_tol bit for bit", (uint64_t)NKIND * 3 * 2 * 3 * 2 * 2 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int k = d.pick(NKIND), n = N_[d.pick(3)], me = d.pick(2), mode = d.pick(3); bool back = d.pick(2); int to = d.pick(2); fz_opt_own = d.x; Case c = kase(k, n, me, back, to); auto a = outputs(m, c, mode, false, nullptr), b = outputs(m, c, mode, true, nullptr); same(m, b, a, "with user-defined options that set the same things"); solve(m, c, mode, nullptr); }, 4, 120});
    std::string names; for (auto &o : *V) names += std::string(names.empty() ? "" : ", ") + o.name; int nt = th ? 3 : 2, nn = th ? 3 : 2;
    F.push_back({"single", fmt("each of %zu options (%s) x 9 kinds of problem x %d sizes x 2 methods x 3 kinds of solve x forward/backward x %d tolerances: right results, and the option is obeyed", V->size(), names.c_str(), nn, nt), (uint64_t)V->size() * NKIND * nn * 2 * 3 * 2 * nt,
      [=](uint64_t i, Machine &m) { Idx d(i); auto &o = (*V)[d.pick(V->size())]; int k = d.pick(NKIND), n = N_[nn == 2 ? 1 + d.pick(2) : d.pick(3)], me = d.pick(2), mode = d.pick(3); bool back = d.pick(2); int to = d.x; if (nt == 2) to = to ? 2 : 0; fz_opt_own = i % 2; Case c = kase(k, n, me, back, to); c.maxn = 5000000; m.say("option: %s", o.name); g_slack = o.slack; solve(m, c, mode, o.set); M = &m; C = &c; o.judge(); g_slack = 1; if (o.like && c.method == 100) { Obs a = O; outputs(m, c, mode, true, nullptr); M = &m; C = &c; if (getenv("FZ_LIKE")) { FILE *q = fopen("/tmp/like", "a"); fprintf(q, "%ld %ld %ld %ld %ld %ld %s | %d %d %s\n", a.nni, O.nni, a.nst, O.nst, a.ncfn, O.ncfn, o.name, c.pr, mode, c.str().c_str()); fclose(q); } if (!getenv("FZ_LIKE")) need(a.nst <= 1.6 * O.nst + 20, fmt("%ld steps are needed, %ld with the default linear solver", a.nst, O.nst)); if (!getenv("FZ_LIKE")) need(a.nni <= (c.pr == 0 || c.pr == 22 || c.pr == 23 || c.pr == 25 || c.pr == 27 ? 1.6 : 2.2) * O.nni + 30, fmt("%ld nonlinear iterations are needed, %ld with the default linear solver", a.nni, O.nni)); need(a.ncfn <= O.ncfn + 0.05 * O.nst + 4, fmt("%ld convergence failures in %ld steps, %ld with the default linear solver", a.ncfn, a.nst, O.ncfn)); } }, 4, 120});
    // what the pairs are made of: options that do not exclude each other
    auto W = std::make_shared<std::vector<int>>(); static const char *PN[] = {"maximum step T/60", "initial step 1e-4 T", "initial step T/20", "stop time at the last output", "order at most 3", "5 nonlinear iterations", "convergence coefficient 0.01", "linear solver setup at every step", "new Jacobian at every setup", "stability limit detection", "no solution scaling", "exact Jacobian", "band matrix", "another Newton solver", "sensitivity tolerances", "many error test and convergence failures allowed"};
    for (auto n : PN) for (size_t j = 0; j < V->size(); j++) if (!strcmp(n, (*V)[j].name)) W->push_back(j);
    F.push_back({"pairs", fmt("every ordered pair of %zu of these options x 9 kinds of problem x 2 methods x 3 kinds of solve (tolerance and direction alternate)", W->size()), (uint64_t)W->size() * W->size() * NKIND * 2 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int x = (*W)[d.pick(W->size())], y = (*W)[d.pick(W->size())]; if (x == y || (!strncmp((*V)[x].name, "initial", 7) && !strncmp((*V)[y].name, "initial", 7))) throw Skip(); auto &a = (*V)[x], &b = (*V)[y]; int k = d.pick(NKIND), me = d.pick(2), mode = d.x; fz_opt_own = (i / 3) % 2; std::string A = a.name, B = b.name; Case c = kase(k, 3, me, k < 5 && i % 5 == 0, i % 2 ? 2 : 0); m.say("options: %s, then %s", a.name, b.name); if (B == "band matrix" && (A == "exact Jacobian" || A == "no solution scaling" || A == "new Jacobian at every setup")) throw Skip();      // a new linear solver forgets these
        if (A == "another Newton solver" || B == "another Newton solver") if (A == "5 nonlinear iterations" || B == "5 nonlinear iterations") throw Skip();
        g_slack = a.slack * b.slack; solve(m, c, mode, [&](void *q) { a.set(q); b.set(q); }); M = &m; C = &c; a.judge(); b.judge(); g_slack = 1; }, 8, 120});
    // settings that must change nothing
    auto U = std::make_shared<std::vector<std::pair<const char *, std::function<void(void *)>>>>();
    U->push_back({"maximum step infinite", [](void *m) { OK(CVodeSetMaxStep(m, 0)); }}); U->push_back({"maximum step far larger than any", [](void *m) { OK(CVodeSetMaxStep(m, 1e200)); }}); U->push_back({"minimum step 0", [](void *m) { OK(CVodeSetMinStep(m, 0)); }}); U->push_back({"minimum step far smaller than any", [](void *m) { OK(CVodeSetMinStep(m, 1e-200)); }});
    U->push_back({"initial step 0", [](void *m) { OK(CVodeSetInitStep(m, 0)); }}); U->push_back({"largest order", [](void *m) { OK(CVodeSetMaxOrd(m, C->method == 100 ? 5 : 12)); }}); U->push_back({"stop time far away", [](void *m) { OK(CVodeSetStopTime(m, C->t0 + 1e6 * (C->ts.back() - C->t0))); }});
    U->push_back({"vector tolerance, all the same", [](void *m) { N_Vector a = vec(); N_VConst(C->atol, a); OK(CVodeSVtolerances(m, C->rtol, a)); }}); U->push_back({"weight function for the same weights", [](void *m) { OK(CVodeWFtolerances(m, ewt_same)); }});
    U->push_back({"error handler", [](void *m) { OK(CVodeSetErrHandlerFn(m, quiet, nullptr)); }}); U->push_back({"no error file", [](void *m) { OK(CVodeSetErrFile(m, nullptr)); }}); U->push_back({"3 nonlinear iterations", [](void *m) { OK(CVodeSetMaxNonlinIters(m, 3)); }}); U->push_back({"7 error test failures", [](void *m) { OK(CVodeSetMaxErrTestFails(m, 7)); }}); U->push_back({"10 convergence failures", [](void *m) { OK(CVodeSetMaxConvFails(m, 10)); }});
    U->push_back({"convergence coefficient 0.1", [](void *m) { OK(CVodeSetNonlinConvCoef(m, 0.1)); }}); U->push_back({"linear solver setup every 20 steps", [](void *m) { OK(CVodeSetLSetupFrequency(m, 20)); }}); U->push_back({"Jacobian at the latest after 51 steps", [](void *m) { OK(CVodeSetJacEvalFrequency(m, 51)); }}); U->push_back({"default Jacobian", [](void *m) { OK(CVodeSetJacFn(m, nullptr)); }}); U->push_back({"default linear systems", [](void *m) { OK(CVodeSetLinSysFn(m, nullptr)); }});
    U->push_back({"scaling on", [](void *m) { if (C->method == 100) OK(CVodeSetLinearSolutionScaling(m, SUNTRUE)); }}); U->push_back({"stability limit detection off", [](void *m) { OK(CVodeSetStabLimDet(m, SUNFALSE)); }}); U->push_back({"no warnings", [](void *m) { OK(CVodeSetMaxHnilWarns(m, -1)); }}); U->push_back({"another dense solver", [](void *m) { SUNMatrix A = SUNDenseMatrix(C->n, C->n, ctx()); use_ls(m, SUNLinSol_Dense(vec(), A, ctx()), A); }});
    U->push_back({"an event that never happens", [](void *m) { g_cross = C->ts.back() + 0.5 * (C->ts.back() - C->t0); OK(CVodeRootInit(m, 1, root_fn)); }}); U->push_back({"an event in the past", [](void *m) { g_cross = C->t0 - 0.5 * (C->ts.back() - C->t0); OK(CVodeRootInit(m, 1, root_fn)); }}); U->push_back({"an event in a direction that does not occur", [](void *m) { g_cross = C->t0 + 0.6 * (C->ts.back() - C->t0); int d = -O.dir; OK(CVodeRootInit(m, 1, root_fn)); OK(CVodeSetRootDirection(m, &d)); }}); U->push_back({"events set and removed", [](void *m) { g_cross = C->t0 + 0.6 * (C->ts.back() - C->t0); OK(CVodeRootInit(m, 1, root_fn)); OK(CVodeRootInit(m, 0, nullptr)); }});
    U->push_back({"sensitivity error control on", [](void *m) { if (g_mode) OK(CVodeSetSensErrCon(m, SUNTRUE)); }}); U->push_back({"3 nonlinear iterations for sensitivities", [](void *m) { if (g_mode) OK(CVodeSetSensMaxNonlinIters(m, 3)); }}); U->push_back({"sensitivity tolerances estimated", [](void *m) { if (g_mode) OK(CVodeSensEEtolerances(m)); }}); U->push_back({"the sensitivity tolerances that would be estimated", [](void *m) { if (!g_mode) return; std::vector<double> a(ns(), C->atol); OK(CVodeSensSStolerances(m, C->rtol, a.data())); }});
    U->push_back({"the same tolerances again", [](void *m) { OK(CVodeSStolerances(m, 1e-2, 1e-2)); OK(CVodeSStolerances(m, C->rtol, C->atol)); }}); U->push_back({"step limit restored", [](void *m) { OK(CVodeSetMaxNumSteps(m, 1)); OK(CVodeSetMaxNumSteps(m, C->maxn)); }}); U->push_back({"the same options twice", [](void *m) { OK(CVodeSetMaxOrd(m, 3)); (void)m; OK(CVodeSetMaxStep(m, 0)); }}); U->pop_back();
    U->push_back({"refused settings", [](void *m) { REFUSED(CVodeSetMaxOrd(m, 0)); REFUSED(CVodeSetMaxOrd(m, -2)); REFUSED(CVodeSetMaxOrd(m, C->method == 100 ? 6 : 13)); REFUSED(CVodeSetMinStep(m, -1)); REFUSED(CVodeSetMaxStep(m, -1)); REFUSED(CVodeSStolerances(m, -1, 1)); REFUSED(CVodeSStolerances(m, 1, -1)); N_Vector a = vec(); N_VConst(1e-6, a); NV_DATA_S(a)[C->n - 1] = -1e-9; REFUSED(CVodeSVtolerances(m, 1e-6, a)); REFUSED(CVodeSetLSetupFrequency(m, -1)); REFUSED(CVodeSetJacEvalFrequency(m, -1)); REFUSED(CVodeSetLinearSolver(m, nullptr, nullptr)); REFUSED(CVodeSetNonlinearSolver(m, nullptr)); N_VConst(3, a); REFUSED(CVodeSetConstraints(m, a)); if (g_mode) REFUSED(CVodeSensSStolerances(m, -1, nullptr)); REFUSED(CVodeSetStopTime(nullptr, 1)); int dd = 1; REFUSED(CVodeSetRootDirection(m, &dd)); }});
    { std::string un; for (auto &u : *U) un += std::string(un.empty() ? "" : ", ") + u.first; int nt2 = th ? 9 : 3;
    F.push_back({"neutral", fmt("%zu settings that must not change anything (%s) x 9 kinds of problem x {1, 2, 4} equations x 2 methods x 3 kinds of solve x forward/backward x %d tolerances: results bit for bit those without", U->size(), un.c_str(), nt2), (uint64_t)U->size() * NKIND * 3 * 2 * 3 * 2 * nt2,
      [=](uint64_t i, Machine &m) { Idx d(i); auto &u = (*U)[d.pick(U->size())]; int k = d.pick(NKIND), n = N_[d.pick(3)], me = d.pick(2), mode = d.pick(3); bool back = d.pick(2); int to = nt2 == 1 ? i % 2 : d.x; fz_opt_own = (i / 2) % 2; Case c = kase(k, n, me, back, to); m.say("setting: %s", u.first); auto a = outputs(m, c, mode, false, nullptr), b = outputs(m, c, mode, true, u.second); same(m, b, a, u.first); int nd = m.add(); m.n[nd].v = a[0]; }, 8, 120}); }
    // the results at the outputs before a stop time, which protects the right-hand side from times at which it is undefined
    F.push_back({"stop-time", fmt("stop times (the last output, 1 ulp to 1e-6 T beyond it) x 9 kinds of problem x {1, 2, 4} equations x 2 methods x 3 kinds of solve x forward/backward x 3 grids x %d tolerances; the right-hand side is NaN beyond the stop time (forward) and must never be evaluated there", nt), (uint64_t)4 * NKIND * 3 * 2 * 3 * 2 * 3 * nt,
      [=](uint64_t i, Machine &m) { Idx d(i); int w = d.pick(4), k = d.pick(NKIND), n = N_[d.pick(3)], me = d.pick(2), mode = d.pick(3); bool back = d.pick(2); int g = d.pick(3), to = d.x; if (nt == 2) to = to ? 2 : 0; fz_opt_own = i % 2; Case c = kase(k, n, me, back, to, g); double T = c.ts.back(), s = w == 0 ? T : w == 1 ? nextafter(T, T + O.dir * 9) : T + (T - c.t0) * (w == 2 ? 1e-12 : 1e-6); if (w == 1 && back) s = nextafter(T, T - 9); if (w == 0 && i % 3 == 0) c.ts.push_back(T);
        if (!back) { fz_rhs_nan_after = nextafter(s, s + 1); fz_rhs_nan_kind = 0; fz_rhs_nan_comp = n; } m.say("stop time %.17g", s); solve(m, c, mode, [=](void *q) { OK(CVodeSetStopTime(q, s)); }); fz_rhs_nan_after = HUGE_VAL; M = &m; need(!((O.far - s) * O.dir > 0), fmt("the right-hand side is evaluated at %.17g, beyond the stop time %.17g", O.far, s)); }, 8, 120});
    // tolerances by component: uncoupled equations of very different size
    F.push_back({"vector-tolerances", "uncoupled equations with sizes from 1e-9 to 1e6 in every order, absolute tolerance of each in proportion, x {2, 3, 5} equations x 2 methods x 3 kinds of solve x 3 ways to say it (vector, weight function, a loose vector first) x 2 tolerances: every component accurate to its own tolerance", (uint64_t)6 * 3 * 2 * 3 * 3 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int rot = d.pick(6); static const int NN[] = {2, 3, 5}; int n = NN[d.pick(3)], me = d.pick(2), mode = d.pick(3), how = d.pick(3), to = d.x; static const double S[] = {1e-9, 1e6, 1, 1e3, 1e-5, 1e-2}; Case c; c.pr = 20; c.n = n; c.method = 100 + me; c.rtol = to ? 1e-9 : 1e-5; c.atol = c.rtol / 100; c.t0 = 0.5; c.p = {1}; std::vector<double> sc; for (int j = 0; j < n; j++) { sc.push_back(S[(j + rot) % 6]); c.k.push_back(1 + (5 * j + rot) % 9); c.y0.push_back((j % 2 ? -0.7 : 0.6) * sc.back()); } c.ts = {0.9, 1.5, 2.1}; fz_opt_own = i % 2;
        static std::vector<double> g_sc; g_sc = sc; m.say("absolute tolerances in proportion to the sizes%s", how == 1 ? " (weight function)" : how == 2 ? " (after a loose one)" : ""); CVEwtFn wf = [](N_Vector y, N_Vector w, void *) { for (int j = 0; j < C->n; j++) NV_DATA_S(w)[j] = 1 / (C->rtol * fabs(NV_DATA_S(y)[j]) + C->atol * g_sc[j]); return 0; };
        auto R = outputs(m, c, mode, true, [&](void *q) { if (how == 1) OK(CVodeWFtolerances(q, wf)); else { N_Vector a = vec(); if (how == 2) { N_VConst(1e3, a); OK(CVodeSVtolerances(q, 0.1, a)); } for (int j = 0; j < n; j++) NV_DATA_S(a)[j] = c.atol * sc[j]; OK(CVodeSVtolerances(q, c.rtol, a)); } }); M = &m; C = &c; Ref e = solve_exact(c, mode == 2 ? 2 : 0); int na = mode == 0 ? 0 : mode == 1 ? n : 1, at = 0;
        for (int j = 0; j < 3; j++) for (int k = 0; k < n; k++) { ld amp = expl(2.L) , tol = 60 * sqrtl(n) * amp * (c.rtol + c.atol) * sc[k]; double g = R[at++]; need(fabsl(g - e.y[j][k].v) <= tol, fmt("component %d at output %d is %.17g, the exact solution is %.17Lg (tolerance %.3Lg)", k + 1, j + 1, g, e.y[j][k].v, tol)); for (int q = 0; q < na; q++) { double s = R[at++]; ld ts = 60 * sqrtl(n) * amp * amp * (c.rtol + c.atol) * (mode == 1 ? sc[k] / sc[q] * std::max<ld>(1, sc[q] / sc[k]) : sc[k]); if (mode == 1 && q != k) { need(s == 0 || fabs(s) * sc[q] <= 1e-3 * sc[k], "derivative of one equation by the initial state of another"); continue; } need(fabsl(s - e.y[j][k].d[q]) <= ts, fmt("derivative %d of component %d at output %d is %.17g, exactly %.17Lg (tolerance %.3Lg)", q + 1, k + 1, j + 1, s, e.y[j][k].d[q], ts)); } } int nd = m.add(); m.n[nd].v = R[0]; m.edge(nd, rot, how, to); }, 4, 120});
    // derivatives without error control: the values must be as accurate as ever
    F.push_back({"values-only", "sensitivities left out of the error control x 9 kinds of problem x {1, 2, 4} equations x 2 methods x 2 kinds of solve x 2 tolerances: the steps, and so the values, are close to those of the plain solve", (uint64_t)NKIND * 3 * 2 * 2 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int k = d.pick(NKIND), n = N_[d.pick(3)], me = d.pick(2), mode = 1 + d.pick(2), to = d.x; Case c = kase(k, n, me, false, to); fz_opt_own = i % 2; auto a = outputs(m, c, 0, false, nullptr), b = outputs(m, c, mode, true, [](void *q) { OK(CVodeSetSensErrCon(q, SUNFALSE)); }); M = &m; int na = mode == 1 ? n : (int)c.p.size(); size_t p = 0; double sc = 0; for (double v : a) sc = std::max(sc, fabs(v)); for (size_t j = 0; j < c.ts.size() * n; j++) { need(fabs(b[p] - a[j]) <= (k == 4 ? 1000 : 30) * sqrt(n) * (c.rtol * sc + c.atol), fmt("value %zu is %.17g with and %.17g without sensitivities", j + 1, b[p], a[j])); p += 1 + na; } int nd = m.add(); m.n[nd].v = a[0]; }, 4, 120});
    // constraints on the solution
    F.push_back({"constraints", "data solves that must stay >= 0, > 0, <= 0 or < 0 (every combination over two decaying components with matching signs) x 2 methods x 4 tolerances x 3 grids, and (>= 0 and <= 0 with BDF) one output with the stop time there at 60 times far into a fast decay: the constraint holds at every output and the result is right", (uint64_t)4 * 4 * 2 * 4 * 63,
      [=](uint64_t i, Machine &m) { Idx d(i); int a = d.pick(4), b = d.pick(4), me = d.pick(2), to = d.pick(4), g = d.x; static const double CT_[] = {1, 2, -1, -2}; static const double RT_[] = {1e-3, 1e-5, 1e-7, 1e-9}; if (g >= 3 && (a % 2 || b % 2 || me)) throw Skip(); const double slip = 1e-3; Case c; c.pr = 20; c.n = 2; c.method = 100 + me; c.rtol = RT_[to]; c.atol = RT_[to] / 10; c.t0 = 0; c.k = {1, 1}; c.p = {-9}; double T = 1.5; c.y0 = {a < 2 ? 1e-3 : -1e-3, b < 2 ? 2.0 : -2.0}; if (g < 3) c.ts = outs(g, 0, T); else { c.k = {0.01, 0.01}; c.p = {-5000}; c.ts = {0.06 * (g - 2)}; } m.say("constraints %g %g", CT_[a], CT_[b]); C = &c; std::vector<double> R = outputs(m, c, 0, true, [=](void *q) { N_Vector v = vec(); NV_DATA_S(v)[0] = CT_[a]; NV_DATA_S(v)[1] = CT_[b]; OK(CVodeSetConstraints(q, v)); if (g >= 3) OK(CVodeSetStopTime(q, C->ts[0])); }); M = &m; C = &c; Ref e = solve_exact(c, 0);
        for (size_t j = 0; j < c.ts.size(); j++) for (int k = 0; k < 2; k++) { double v = R[2 * j + k], s = CT_[k ? b : a]; ld tol = 30 * (c.rtol * 2 + c.atol); need(s > 0 ? v >= -slip * c.atol : v <= slip * c.atol, fmt("component %d at output %zu is %.17g, which violates its constraint", k + 1, j + 1, v)); need(fabsl(v - e.y[j][k].v) <= tol, fmt("component %d at output %zu is %.17g, the exact solution is %.17Lg", k + 1, j + 1, v, e.y[j][k].v)); } int nd = m.add(); m.n[nd].v = R[0]; m.edge(nd, a, b, to); }, 4, 120});
    F.push_back({"constraints-steps", "decaying solutions that must stay >= 0 (rates 9 .. 5000, signs alternate, constraints on both components, strict or not, or on one) x 2 methods x 4 tolerances x {largest step T/2 .. T/100, stop time at the last of 3 outputs, both, neither} x 3 lengths x smooth and growing decay: no step larger than allowed, no evaluation beyond the stop time, the constraint holds after every internal step and the result is right", (uint64_t)6 * 2 * 4 * 14 * 3 * 2 * 4,
      [=](uint64_t i, Machine &m) { Idx d(i); static const double LA[] = {9, 50, 200, 800, 2000, 5000}, HM[] = {0, 2, 3, 5, 10, 30, 100}, RT_[] = {1e-2, 1e-3, 1e-4, 1e-6}; double la = LA[d.pick(6)]; int me = d.pick(2), to = d.pick(4), h = d.pick(14), st = h / 7; double hm = HM[h % 7]; int len = d.pick(3), gr = d.pick(2), sc = d.x; if (la > 900 && me) throw Skip(); double T = len == 0 ? 1 : len == 1 ? 30 / la : 0.2; Case c; c.pr = 20; c.n = 2; c.method = 100 + me; c.rtol = RT_[to]; c.atol = RT_[to] / 10; c.t0 = gr ? -1.5 / 0.9 : 0; c.k = gr ? std::vector<double>{0.9, 0.9} : std::vector<double>{0.01, 0.01}; c.p = {gr ? -la : -la * 100}; c.y0 = {(i / 7) % 3 ? 1e-3 : -1e-3, (i / 11) % 2 ? 2.0 : -2.0}; c.ts = outs(1, c.t0, T); if (gr) for (double &t : c.ts) t = c.t0 + (t - c.t0); c.maxn = 1000000;
        if (hm) hm = T / hm; m.say("largest step %g%s", hm, st ? ", stop time" : ""); C = &c; std::vector<double> R = outputs(m, c, 0, true, [=](void *q) { N_Vector v = vec(); for (int k = 0; k < 2; k++) NV_DATA_S(v)[k] = g_cc[k] = (C->y0[k] > 0 ? 1 : -1) * (sc == 0 || (sc == 2 && k == 0) ? 1 : sc == 1 || (sc == 3 && k == 1) ? 2 : 0); OK(CVodeSetConstraints(q, v)); if (hm) OK(CVodeSetMaxStep(q, hm)); if (st) OK(CVodeSetStopTime(q, C->ts.back())); g_cn = 0; g_cbad.clear(); OK(CVodeRootInit(q, 1, con_fn)); OK(CVodeSetNoInactiveRootWarn(q)); }); M = &m; C = &c; need(g_cbad.empty(), g_cbad); Ref e = solve_exact(c, 0);
        if (hm) need(O.hhi <= hm * (1 + 1e-9), fmt("a step of %.17g was taken, the largest allowed is %.17g", O.hhi, hm)); if (st) for (double t : O.t) need(t <= c.ts.back() * (1 + 1e-14) + 1e-14, fmt("the right-hand side is evaluated at %.17g, beyond the stop time %.17g", t, c.ts.back()));
        for (size_t j = 0; j < c.ts.size(); j++) for (int k = 0; k < 2; k++) { double v = R[2 * j + k]; ld tol = 300 * (c.rtol * 2 + c.atol); need(fabsl(v - e.y[j][k].v) <= tol, fmt("component %d at output %zu is %.17g, the exact solution is %.17Lg", k + 1, j + 1, v, e.y[j][k].v)); } int nd = m.add(); m.n[nd].v = R[0]; m.edge(nd, h, to, len); }, 4, 120});
    // what cannot be done must stop the program; what may fail must stop or be right
    auto X = std::make_shared<std::vector<std::pair<const char *, std::function<void(void *)>>>>();
    X->push_back({"stop time at the start", [](void *m) { CVodeSetStopTime(m, C->t0); }}); X->push_back({"stop time before the start", [](void *m) { CVodeSetStopTime(m, C->t0 - O.dir); }}); X->push_back({"stop time before the last output", [](void *m) { OK(CVodeSetStopTime(m, C->t0 + 0.7 * (C->ts.back() - C->t0))); }}); X->push_back({"stop time before the first output", [](void *m) { OK(CVodeSetStopTime(m, C->t0 + 1e-3 * (C->ts[0] - C->t0))); }}); X->push_back({"initial step in the wrong direction", [](void *m) { OK(CVodeSetInitStep(m, -1e-3 * O.dir)); }});
    X->push_back({"weight function that fails", [](void *m) { OK(CVodeWFtolerances(m, ewt_bad)); }}); X->push_back({"an event before the last output", [](void *m) { g_cross = C->t0 + 0.6 * (C->ts.back() - C->t0); OK(CVodeRootInit(m, 1, root_fn)); }}); X->push_back({"step limit 2", [](void *m) { OK(CVodeSetMaxNumSteps(m, 2)); }}); X->push_back({"user Jacobian that fails for good", [](void *m) { g_jcalls = 1; g_jfail = 2; OK(CVodeSetJacFn(m, jac_fn)); }}); X->push_back({"initial state against its constraint", [](void *m) { N_Vector v = vec(); for (int j = 0; j < C->n; j++) NV_DATA_S(v)[j] = C->y0[j] > 0 ? -1 : 1; int rc = CVodeSetConstraints(m, v); if (rc) exit(1); }}); X->push_back({"no linear solver for Newton's method", [](void *m) { auto N = SUNNonlinSol_Newton(vec(), ctx()); (void)N; SUNLinearSolver L = own_ls(SUNLINEARSOLVER_ITERATIVE); L->ops->solve = [](SUNLinearSolver, SUNMatrix, N_Vector, N_Vector, realtype) { return SUNLS_PACKAGE_FAIL_UNREC; }; use_ls(m, L, nullptr); }}); X->push_back({"a largest step below the smallest", [](void *m) { OK(CVodeSetMinStep(m, 1e-2)); if (CVodeSetMaxStep(m, 1e-3)) exit(1); }}); X->push_back({"no tolerances", [](void *m) { CVodeSStolerances(m, 0, 0); }});
    { std::string xn; for (auto &x : *X) xn += std::string(xn.empty() ? "" : ", ") + x.first;
    F.push_back({"impossible", fmt("%zu settings under which the solve cannot be completed (%s) x 9 kinds of problem x {1, 2, 4} equations x 2 methods x 3 kinds of solve x forward/backward: the program is stopped", X->size(), xn.c_str()), (uint64_t)X->size() * NKIND * 3 * 2 * 3 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); auto &x = (*X)[d.pick(X->size())]; int k = d.pick(NKIND), n = N_[d.pick(3)], me = d.pick(2), mode = d.pick(3); bool back = d.x; fz_opt_own = i % 2; Case c = kase(k, n, me, back, 0); m.say("setting: %s", x.first); outputs(m, c, mode, true, x.second); m.bad("the solve returns although it cannot have been completed"); }, 1, 60, true}); }
    { static const double EP[] = {1e-5, 0.01, 0.29, 0.31, 0.5, 0.549, 0.551, 0.77, 0.95, 0.999}, EQ[] = {-0.1, -1e-5, 1.00001, 1.001, 1.01, 1.05, 1.2, 1.5};
      auto ev = [](double f, int w, double sg, int dir) { g_evn = w ? 3 : 1; g_evw = w == 2 ? 2 : 0; g_evs = sg; g_evt = C->t0 + f * (C->ts.back() - C->t0); return [=](void *m) { OK(CVodeRootInit(m, g_evn, ev_fn)); if (dir) { int d[3] = {1, 1, 1}; d[g_evw] = dir * (O.dir * sg > 0 ? 1 : -1); OK(CVodeSetRootDirection(m, d)); } }; };
      F.push_back({"events", "one event at 10 places before the last output x {one event function, the first of three, the last of three} x rising/falling x {any direction, this direction} x 9 kinds of problem x 2 methods x 3 kinds of solve x forward/backward (outputs alternate): the program is stopped", (uint64_t)10 * 3 * 2 * 2 * NKIND * 2 * 3 * 2,
        [=](uint64_t i, Machine &m) { Idx d(i); double f = EP[d.pick(10)]; int w = d.pick(3); double sg = d.pick(2) ? -1 : 1; int dir = d.pick(2), k = d.pick(NKIND), me = d.pick(2), mode = d.pick(3); bool back = d.x; fz_opt_own = i % 2; Case c = kase(k, 1 + i % 3, me, back, 0, i / 7 % 3); C = &c; m.say("event %d of %d after %g of the way, %s", g_evw, w ? 3 : 1, f, dir ? "in its direction" : "in any direction"); outputs(m, c, mode, true, ev(f, w, sg, dir)); m.bad("the event is not seen"); }, 1, 60, true});
      F.push_back({"no-events", "one event at 8 places before the start or after the last output, and at 10 places on the way but against the direction asked for x {one event function, the first of three, the last of three} x rising/falling x 9 kinds of problem x 2 methods x 3 kinds of solve x forward/backward (outputs alternate): results bit for bit those without", (uint64_t)18 * 3 * 2 * NKIND * 2 * 3 * 2,
        [=](uint64_t i, Machine &m) { Idx d(i); int e = d.pick(18); double f = e < 8 ? EQ[e] : EP[e - 8]; int w = d.pick(3); double sg = d.pick(2) ? -1 : 1; int k = d.pick(NKIND), me = d.pick(2), mode = d.pick(3); bool back = d.x; fz_opt_own = i % 2; Case c = kase(k, 1 + i % 3, me, back, 0, i / 7 % 3); C = &c; m.say("event after %g of the way, %s", f, e < 8 ? "in any direction" : "against its direction"); auto a = outputs(m, c, mode, false, nullptr), b = outputs(m, c, mode, true, ev(f, w, sg, e < 8 ? 0 : -1)); same(m, b, a, "an event that does not occur"); int nd = m.add(); m.n[nd].v = a[0]; }, 8, 120}); }
    { struct Pat { const char *name; std::vector<std::pair<double, std::vector<int>>> f; std::vector<int> dir; bool stop; };   // places: 0 the start, 1 and 2 on the way, 3: zero until there
      static const std::vector<Pat> PAT = {{"crossed against the direction asked for, then in it", {{1, {1, 2}}}, {1}, true}, {"one crossed against its direction, then another in its", {{1, {1}}, {1, {2}}}, {-1, 1}, true}, {"one crossed in its direction after another against its", {{1, {2}}, {1, {1}}}, {1, -1}, true}, {"zero at the start and crossed later", {{1, {0, 2}}}, {0}, true}, {"zero at the start and crossed later in the direction asked for", {{1, {0, 1}}}, {1}, true}, {"one always zero, another crossed", {{0, {}}, {1, {2}}}, {0, 0}, true}, {"one zero at the start, another crossed", {{1, {0}}, {1, {1}}}, {0, 1}, true}, {"crossed in the direction, then against", {{1, {1, 2}}}, {-1}, true}, {"against, in, against, of three", {{1, {}}, {1, {1}}, {-1, {1, 2}}}, {0, -1, -1}, true}, {"zero for a while and crossed later", {{1, {3, 2}}}, {0}, true}, {"zero for a while and crossed later in the direction asked for", {{1, {3, 2}}}, {1}, true}, {"zero for a while, crossed against the direction, then in it", {{1, {3, 1, 2}}}, {1}, true},
        {"zero at the start only", {{1, {0}}}, {0}, false}, {"zero for a while", {{1, {3}}}, {0}, false}, {"zero at the start only, with a direction", {{1, {0}}}, {1}, false}, {"always zero", {{0, {}}}, {0}, false}, {"two crossed against their directions", {{1, {1}}, {-1, {2}}}, {-1, 1}, false}, {"zero at the start, crossed later against the direction", {{1, {0, 2}}}, {-1}, false}, {"one always zero, another crossed against its direction", {{0, {}}, {-1, {1}}}, {1, 1}, false}, {"one zero at the start, another crossed against its direction", {{-1, {0}}, {1, {2}}}, {0, -1}, false}};
      static const double PA[4][2] = {{0.1, 0.5}, {0.3, 0.62}, {0.2, 0.95}, {0.41, 0.47}};
      auto pat = [](const Pat *p, int w, double sg) { return [=](void *m) { g_pat.clear(); std::vector<int> d; for (size_t j = 0; j < p->f.size(); j++) { std::vector<double> r; for (int x : p->f[j].second) r.push_back(x == 3 ? 3 + 0.3 * PA[w][0] : x ? PA[w][x - 1] : 0); g_pat.push_back({sg * p->f[j].first, r}); d.push_back(sg > 0 ? p->dir[j] : -p->dir[j]); } OK(CVodeSetMaxStep(m, fabs(C->ts.back() - C->t0) * (PA[w][1] - PA[w][0]) / 2.5)); OK(CVodeRootInit(m, p->f.size(), pat_fn)); OK(CVodeSetRootDirection(m, d.data())); }; };
      auto lst = [](bool st) { std::string r; for (auto &p : PAT) if (p.stop == st) r += std::string(r.empty() ? "" : ", ") + p.name; return r; };
      F.push_back({"event-patterns", fmt("event functions that cross zero more than once or are zero at the start (%s) at 4 pairs of places x 2 signs x 9 kinds of problem x 2 methods x 3 kinds of solve x forward/backward, the largest step below the distance of the two: the program is stopped", lst(true).c_str()), (uint64_t)12 * 4 * 2 * NKIND * 2 * 3 * 2,
        [=](uint64_t i, Machine &m) { Idx d(i); const Pat *p = &PAT[d.pick(12)]; int w = d.pick(4); double sg = d.pick(2) ? -1 : 1; int k = d.pick(NKIND), me = d.pick(2), mode = d.pick(3); bool back = d.x; fz_opt_own = i % 2; Case c = kase(k, 1 + i % 3, me, back, 0, i / 7 % 3); C = &c; m.say("event function %s, after %g and %g of the way", p->name, PA[w][0], PA[w][1]); outputs(m, c, mode, true, pat(p, w, sg)); m.bad("the event is not seen"); }, 1, 60, true});
      F.push_back({"no-event-patterns", fmt("event functions without an event (%s) at 4 pairs of places x 2 signs x 9 kinds of problem x 2 methods x 3 kinds of solve x forward/backward: results bit for bit those without", lst(false).c_str()), (uint64_t)8 * 4 * 2 * NKIND * 2 * 3 * 2,
        [=](uint64_t i, Machine &m) { Idx d(i); const Pat *p = &PAT[12 + d.pick(8)]; int w = d.pick(4); double sg = d.pick(2) ? -1 : 1; int k = d.pick(NKIND), me = d.pick(2), mode = d.pick(3); bool back = d.x; fz_opt_own = i % 2; Case c = kase(k, 1 + i % 3, me, back, 0, i / 7 % 3); C = &c; m.say("event function %s, %g and %g of the way", p->name, PA[w][0], PA[w][1]); auto a = outputs(m, c, mode, true, [=](void *q) { OK(CVodeSetMaxStep(q, fabs(C->ts.back() - C->t0) * (PA[w][1] - PA[w][0]) / 2.5)); }), b = outputs(m, c, mode, true, pat(p, w, sg)); same(m, b, a, "an event that does not occur"); int nd = m.add(); m.n[nd].v = a[0]; }, 8, 120}); }
    auto Y = std::make_shared<std::vector<std::pair<const char *, std::function<void(void *)>>>>();
    for (double f : {1e-6, 1e-4, 1e-3, 1e-2, 0.1}) Y->push_back({f < 2e-6 ? "smallest step 1e-6 T" : f < 2e-4 ? "smallest step 1e-4 T" : f < 2e-3 ? "smallest step 1e-3 T" : f < 0.02 ? "smallest step 0.01 T" : "smallest step 0.1 T", [=](void *m) { OK(CVodeSetMinStep(m, f * span())); }});
    for (double f : {1e-5, 1e-3, 1e-2}) Y->push_back({f < 2e-5 ? "smallest step 1e-5 T, Jacobian that fails now and then" : f < 2e-3 ? "smallest step 1e-3 T, Jacobian that fails now and then" : "smallest step 0.01 T, Jacobian that fails now and then", [=](void *m) { g_jcalls = 0; g_jfail = 3; g_jscale = 1; OK(CVodeSetJacFn(m, jac_fn)); OK(CVodeSetJacEvalFrequency(m, 1)); OK(CVodeSetLSetupFrequency(m, 1)); OK(CVodeSetMinStep(m, f * span())); }});
    for (int k : {1, 2, 3}) { Y->push_back({k == 1 ? "1 error test failure" : k == 2 ? "2 error test failures" : "3 error test failures", [=](void *m) { OK(CVodeSetMaxErrTestFails(m, k)); }}); Y->push_back({k == 1 ? "1 convergence failure" : k == 2 ? "2 convergence failures" : "3 convergence failures", [=](void *m) { OK(CVodeSetMaxConvFails(m, k)); }}); }
    Y->push_back({"1 nonlinear iteration", [](void *m) { OK(CVodeSetMaxNonlinIters(m, 1)); }}); Y->push_back({"1 nonlinear iteration for sensitivities", [](void *m) { if (g_mode) OK(CVodeSetSensMaxNonlinIters(m, 1)); }}); Y->push_back({"Jacobian of the wrong sign", [](void *m) { g_jcalls = g_jfail = 0; g_jscale = -1; OK(CVodeSetJacFn(m, jac_fn)); }}); Y->push_back({"zero Jacobian", [](void *m) { g_jcalls = g_jfail = 0; g_jscale = 0; OK(CVodeSetJacFn(m, jac_fn)); }}); Y->push_back({"Jacobian three times too large", [](void *m) { g_jcalls = g_jfail = 0; g_jscale = 3; OK(CVodeSetJacFn(m, jac_fn)); }}); Y->push_back({"initial step as long as the interval", [](void *m) { OK(CVodeSetInitStep(m, C->ts.back() - C->t0)); }}); Y->push_back({"initial step far beyond the end", [](void *m) { OK(CVodeSetInitStep(m, 1e3 * (C->ts.back() - C->t0))); }}); Y->push_back({"diagonal approximation of a full Jacobian", [](void *m) { OK(CVDiag(m)); }}); Y->push_back({"band of width 0 for a full Jacobian", [](void *m) { SUNMatrix A = SUNBandMatrix(C->n, 0, 0, ctx()); use_ls(m, SUNLinSol_Band(vec(), A, ctx()), A); }}); Y->push_back({"fixed-point iteration for anything", [](void *m) { OK(CVodeSetNonlinearSolver(m, own_nls())); if (g_mode) OK(CVodeSetNonlinearSolverSensStg(m, own_nls())); }});
    { std::string yn; for (auto &y : *Y) yn += std::string(yn.empty() ? "" : ", ") + y.first; int nt3 = th ? 3 : 1;
    F.push_back({"risky", fmt("%zu settings under which the solve may fail (%s) x 9 kinds of problem x {1, 2, 4} equations x 2 methods x 3 kinds of solve x forward/backward x %d tolerances: the program is stopped or the results are right, and no step is smaller than allowed", Y->size(), yn.c_str(), nt3), (uint64_t)Y->size() * NKIND * 3 * 2 * 3 * 2 * nt3,
      [=](uint64_t i, Machine &m) { Idx d(i); auto &y = (*Y)[d.pick(Y->size())]; int k = d.pick(NKIND), n = N_[d.pick(3)], me = d.pick(2), mode = d.pick(3); bool back = d.pick(2); int to = nt3 == 1 ? (i % 2 ? 2 : 0) : d.x; fz_opt_own = i % 2; Case c = kase(k, n, me, back, to); c.maxn = 20000; m.say("setting: %s", y.first); g_slack = 20; solve(m, c, mode, y.second); g_slack = 1; M = &m; C = &c; if (!strncmp(y.first, "smallest", 8)) { double f = atof(y.first + 14); need(O.nst < 1 || O.hlo >= f * span() * (1 - 1e-9), fmt("a step of %.17g was taken, the smallest allowed is %.17g", O.hlo, f * span())); } }, 1, 120, true}); }
    // the same settings, solve after solve: nothing may pile up
    if (sel == "C17") { F.clear(); bool cnt = fz_alloc_live != nullptr; auto A = std::make_shared<std::vector<std::pair<std::string, std::function<void(void *)>>>>(); for (auto &o : *V) A->push_back({o.name, o.set}); for (auto &u : *U) A->push_back({u.first, u.second});
      A->push_back({"tolerances by component", [](void *m) { N_Vector a = vec(); N_VConst(C->atol, a); OK(CVodeSVtolerances(m, C->rtol, a)); }}); A->push_back({"constraints that hold", [](void *m) { if (g_mode || C->pr != 20) return; N_Vector a = vec(); for (int j = 0; j < C->n; j++) NV_DATA_S(a)[j] = C->y0[j] > 0 ? 1 : -1; OK(CVodeSetConstraints(m, a)); }}); A->push_back({"constraints withdrawn", [](void *m) { if (g_mode) return; N_Vector a = vec(); N_VConst(1, a); OK(CVodeSetConstraints(m, a)); OK(CVodeSetConstraints(m, nullptr)); }});
      A->push_back({"a tolerance vector and then one number", [](void *m) { N_Vector a = vec(); N_VConst(C->atol, a); OK(CVodeSVtolerances(m, C->rtol, a)); OK(CVodeSStolerances(m, C->rtol, C->atol)); if (g_mode) { std::vector<N_Vector> b; for (int i = 0; i < ns(); i++) { b.push_back(vec()); N_VConst(C->atol, b.back()); } OK(CVodeSensSVtolerances(m, C->rtol, b.data())); OK(CVodeSensEEtolerances(m)); } }});
      auto rounds = [cnt](Machine &m, const std::string &w, std::function<void()> f) { static long L[8], B[8]; for (int r = 0; r < 6; r++) { f(); std::vector<Node>().swap(m.n); std::string().swap(m.log); std::vector<std::function<void()>>().swap(g_after); g_hook = nullptr; L[r] = cnt ? fz_alloc_live() : 0; B[r] = cnt ? fz_alloc_bytes() : 0; }
        M = &m; m.say("%s: live blocks %ld %ld %ld %ld, bytes %ld %ld %ld %ld", w.c_str(), L[2], L[3], L[4], L[5], B[2], B[3], B[4], B[5]); for (int r = 3; r < 6; r++) need(L[r] == L[2] && B[r] == B[2], fmt("%s: live allocations grow from %ld blocks (%ld bytes) to %ld (%ld)", w.c_str(), L[2], B[2], L[r], B[r])); int nd = m.add(); m.n[nd].v = L[5] - L[2]; };
      F.push_back({"options", fmt("each of %zu settings, made once or twice, x 9 kinds of problem x 2 methods x 3 kinds of solve, 6 solves each: %s", A->size(), cnt ? "number and size of live allocations constant" : "under AddressSanitizer"), (uint64_t)A->size() * 2 * NKIND * 2 * 3,
        [=](uint64_t i, Machine &m) { Idx d(i); auto &a = (*A)[d.pick(A->size())]; int tw = d.pick(2), k = d.pick(NKIND), me = d.pick(2), mode = d.x; fz_opt_own = i % 2; Case c = kase(k, 2 + i % 2, me, false, 2, 0); c.maxn = 5000000; std::string w = a.first + (tw ? ", twice" : ""); rounds(m, w, [&] { outputs(m, c, mode, true, [&](void *q) { a.second(q); if (tw) a.second(q); }); }); }, 4, 120});
      static const char *RN[] = {"stability limit detection", "band matrix", "matrix-free linear solver", "matrix-free linear solver, own preconditioner", "matrix-free linear solver, band preconditioner", "own direct linear solver", "own iterative linear solver with a matrix", "diagonal approximation", "another Newton solver", "sensitivity tolerances", "sensitivity tolerances by component", "tolerances by component", "constraints that hold", "constraints withdrawn", "events set and removed", "an event that never happens", "another dense solver", "a tolerance vector and then one number", "order at most 3"};
      auto Q = std::make_shared<std::vector<int>>(); for (auto n : RN) for (size_t j = 0; j < A->size(); j++) if ((*A)[j].first == n) { Q->push_back(j); break; }
      F.push_back({"options-pairs", fmt("every ordered pair of %zu of these settings that replace or add storage x 2 kinds of problem x 2 methods x 3 kinds of solve, 6 solves each", Q->size()), (uint64_t)Q->size() * Q->size() * 2 * 2 * 3,
        [=](uint64_t i, Machine &m) { Idx d(i); auto &a = (*A)[(*Q)[d.pick(Q->size())]], &b = (*A)[(*Q)[d.pick(Q->size())]]; int k = d.pick(2) ? 6 : 2, me = d.pick(2), mode = d.x; fz_opt_own = i % 2; auto diag = std::string("diagonal approximation"); if (&a != &b && b.first != "order at most 3" && (a.first == diag || b.first == diag) && (a.first.find("acobian") != a.first.npos || b.first.find("acobian") != b.first.npos || b.first == "linear systems supplied")) throw Skip(); Case c = kase(k, 3, me, false, 2, 0); c.maxn = 5000000; rounds(m, a.first + ", then " + b.first, [&] { outputs(m, c, mode, true, [&](void *q) { a.second(q); b.second(q); }); }); }, 4, 120}); }
    // every internal step against the model of the method
    bool all = sel == "C26"; if (all || sel == "C25") { if (all) F.clear(); struct Set { const char *name; std::function<void(void *)> set; stp::Lim l; }; auto Z = std::make_shared<std::vector<Set>>(); auto lim = [](int q, double h, double k, bool e) { stp::Lim l; l.qmax = q; l.hmax = h; l.coef = k; l.errcon = e; return l; };
      Z->push_back({"no setting", [](void *) {}, stp::Lim()}); for (int q : {1, 2, 3, 4, 5, 8, 11}) Z->push_back({q == 1 ? "order 1" : q == 2 ? "order at most 2" : q == 3 ? "order at most 3" : q == 4 ? "order at most 4" : q == 5 ? "order at most 5" : q == 8 ? "order at most 8" : "order at most 11", [=](void *m) { if (q > 5 && C->method == 100) { stp::L.qmax = 0; return; } OK(CVodeSetMaxOrd(m, q)); }, lim(q, 0, 0.1, true)});
      for (double f : {1 / 15., 1 / 150.}) Z->push_back({f > 0.05 ? "maximum step T/15" : "maximum step T/150", [=](void *m) { stp::L.hmax = f * span(); OK(CVodeSetMaxStep(m, f * span())); }, stp::Lim()});
      Z->push_back({"initial step 1e-8 T", [](void *m) { stp::L.h0 = false; OK(CVodeSetInitStep(m, 1e-8 * (C->ts.back() - C->t0))); }, stp::Lim()}); Z->push_back({"initial step T/20", [](void *m) { stp::L.h0 = false; OK(CVodeSetInitStep(m, (C->pr >= 23 ? (C->rtol < 1e-7 ? 1e-7 : 1e-3) : 0.05) * (C->ts.back() - C->t0))); }, stp::Lim()});
      Z->push_back({"convergence coefficient 0.01", [](void *m) { OK(CVodeSetNonlinConvCoef(m, 0.01)); }, lim(0, 0, 0.01, true)}); Z->push_back({"convergence coefficient 0.3", [](void *m) { OK(CVodeSetNonlinConvCoef(m, 0.3)); }, lim(0, 0, 0.3, true)});
      Z->push_back({"sensitivities outside the error test", [](void *m) { if (g_mode) { stp::L.errcon = false; OK(CVodeSetSensErrCon(m, SUNFALSE)); } }, stp::Lim()});
      Z->push_back({"exact Jacobian", [](void *m) { g_jcalls = 0; g_jfail = 0; g_jscale = 1; OK(CVodeSetJacFn(m, jac_fn)); }, stp::Lim()}); Z->push_back({"sensitivity tolerances", [](void *m) { if (g_mode) { std::vector<double> a(ns(), C->atol); OK(CVodeSensSStolerances(m, C->rtol, a.data())); } }, stp::Lim()});
      Z->push_back({"2 nonlinear iterations", [](void *m) { OK(CVodeSetMaxNonlinIters(m, 2)); }, stp::Lim()}); Z->push_back({"own direct linear solver", [](void *m) { use_ls(m, own_ls(SUNLINEARSOLVER_DIRECT), SUNDenseMatrix(C->n, C->n, ctx())); }, stp::Lim()});
      auto go = [](Machine &m, Case &c, int mode, const Set &z) { stp::L = z.l; m.say("setting: %s", z.name); auto X = outputs(m, c, mode, true, [&](void *q) { z.set(q); stp::install(q); }); if (mode == 0) X.resize(c.n * c.ts.size()); C = &c; M = &m; stp::judge(c); stp::outs_match(X); if (getenv("FZ_DEV")) { FILE *o = fopen(getenv("FZ_DEV"), "a"); for (int i = 0; i < 8; i++) fprintf(o, "%d %.3g %s %s\n", i, stp::g_dev[i], z.name, c.str().c_str()); memset(stp::g_dev, 0, sizeof stp::g_dev); fclose(o); } };
      if (all) F.push_back({"steps", "9 kinds of problem x {1, 2, 4} equations x 2 methods x 3 kinds of solve x forward/backward x 3 tolerances x {1, 3, 30} outputs: every internal step", (uint64_t)NKIND * 3 * 2 * 3 * 2 * 3 * 3,
        [=](uint64_t i, Machine &m) { Idx d(i); int k = d.pick(NKIND), n = N_[d.pick(3)], me = d.pick(2), mode = d.pick(3); bool back = d.pick(2); int to = d.pick(3), g = d.x; fz_opt_own = i % 2; Case c = kase(k, n, me, back, to, g); c.maxn = 5000000; go(m, c, mode, (*Z)[0]); }, 4, 120});
      static const int KP[] = {1, 2, 3, 4, 5, 6, 9, 10, 11}; static const int KN[] = {1, 2, 3, 5, 10}; static const double KT[] = {0.01, 1, 5, 25}; static const double KTOL[][2] = {{1e-5, 1e-7}, {1e-8, 1e-10}, {1e-3, 1e-5}, {1e-11, 1e-13}, {1e-4, 1e-9}, {0.02, 1e-3}}; int nk = 6, nv = th ? 24 : 1;
      if (all) F.push_back({"steps-kinds", fmt("9 further kinds of problem (linear, oscillating, predator-prey, stiff, nearly constant, decay) x {1, 2, 3, 5, 10} equations x 4 lengths (0.01 to 25) x 2 methods x 3 kinds of solve x forward/backward x %d tolerances x %d parameters, starts and outputs: every internal step", nk, nv), (uint64_t)9 * 5 * 4 * 2 * 3 * 2 * nk * nv,
        [=](uint64_t i, Machine &m) { Idx d(i); int pr = KP[d.pick(9)], n = KN[d.pick(5)]; double T = KT[d.pick(4)]; int me = d.pick(2), mode = d.pick(3); bool back = d.pick(2); int to = d.pick(nk), var = d.x; if (fixed2(pr) && n != 2) throw Skip(); if (pr == 3 && back) throw Skip(); if (T > 2 && (pr == 1 || pr == 11) && back) throw Skip(); if (back && (pr == 4 || pr == 9 || pr == 10) && T > 0.1) throw Skip(); if (pr == 11 && T > 6) throw Skip(); if (pr == 3 && T > 6 && !th) throw Skip(); fz_opt_own = i % 2; Case c; c.pr = pr; c.n = n; c.p = params(pr, std::max(2, minpar(pr)), pr == 6 ? var % 2 : var % 8); c.y0 = state(pr, n, var % 5, 1); c.t0 = var % 3 == 1 ? -1.7 : 0.3; c.method = 100 + me; c.rtol = KTOL[to][0]; c.atol = KTOL[to][1]; c.ts = outs((i + var) % 3, c.t0, back ? -T : T); c.maxn = 5000000; go(m, c, mode, (*Z)[0]); }, 4, 120});
      auto st = [](void *m) { if (C->method == 100) { stp::L.stab = true; OK(CVodeSetStabLimDet(m, SUNTRUE)); } };
      Z->push_back({"stability limit detection", st, stp::Lim()});
      static const double SW[] = {10, 60, 400, 3000}, SA[] = {0, 0.003, 0.05, 0.3, 1.5}; int nv3 = th ? 9 : 1, nw = th ? 4 : 3, ns3 = th ? 3 : 2, nto = th ? 6 : 4;
      F.push_back({"stability", fmt("stability limit detection on damped oscillations behind a smooth solution: %d frequencies x 5 ratios of damping x %d sizes x 3 kinds of solve x order at most {5, 4, 3} x %d tolerances x start on and off the solution x %d lengths and outputs: every internal step", nw, ns3, nto, nv3), (uint64_t)nw * 5 * ns3 * 3 * 3 * nto * 2 * nv3,
        [=](uint64_t i, Machine &m) { Idx d(i); double w = SW[d.pick(nw)], a = SA[d.pick(5)] * w; int n = 2 + d.pick(ns3), mode = d.pick(3), qm = 5 - d.pick(3), to = d.pick(nto); static const int TO[] = {0, 2, 4, 5, 1, 3}; to = TO[to]; bool off = d.pick(2); int v = d.x; fz_opt_own = i % 2; Case c; c.pr = 29; c.n = n; c.p = {0.8, 1.3}; c.k = {a, w, 0, 0}; c.t0 = v % 2 ? -1.7 : 0.3; c.method = 100; c.rtol = KTOL[to][0]; c.atol = KTOL[to][1]; for (int j = 0; j < n; j++) c.y0.push_back(c.p[j % 2] * sin(c.t0 + j + 1) + (off ? 0.01 * (j + 1) : 0)); c.ts = outs(v % 3, c.t0, (v / 3 == 0 ? 2 : v / 3 == 1 ? 9 : 0.4) * std::min(1., 300 / w)); c.maxn = 5000000;
          Set z = {"stability limit detection", [=](void *q) { st(q); if (qm < 5) OK(CVodeSetMaxOrd(q, qm)); }, lim(qm < 5 ? qm : 0, 0, 0.1, true)}; go(m, c, mode, z); if (getenv("FZ_NOR") && stp::R.size()) { FILE *o = fopen(getenv("FZ_NOR"), "a"); fprintf(o, "%ld %zu %g %g n%d q%d to%d off%d mode%d cnt %ld\n", stp::R.back().nor, stp::R.size(), w, a / w, n, qm, to, off, mode, stp::g_cnt[13]); fclose(o); } }, 4, 120});
      int nt2 = th ? 9 : 3; std::string zn; for (auto &z : *Z) zn += std::string(zn.empty() ? "" : ", ") + z.name;
      if (all) F.push_back({"steps-settings", fmt("%zu settings (%s) x 9 kinds of problem x {1, 2, 4} equations x 2 methods x 3 kinds of solve x forward/backward x %d tolerances and outputs", Z->size(), zn.c_str(), nt2), (uint64_t)Z->size() * NKIND * 3 * 2 * 3 * 2 * nt2,
        [=](uint64_t i, Machine &m) { Idx d(i); auto &z = (*Z)[d.pick(Z->size())]; int k = d.pick(NKIND), n = N_[d.pick(3)], me = d.pick(2), mode = d.pick(3); bool back = d.pick(2); int to = d.pick(3), g3 = nt2 == 9 ? d.x : 1; fz_opt_own = i % 2; if (z.l.qmax == 1) to = 2; else if (z.l.qmax == 2 && to == 1) to = 0; Case c = kase(k, n, me, back, to, g3); c.maxn = 5000000; go(m, c, mode, z); }, 4, 120}); }
    return F; });
  if (const char *fn = getenv("FZ_RATIO")) { FILE *o = fopen(fn, "a"); for (int i = 0; i < NGROUP; i++) if (g_ratio[i] > 0) fprintf(o, "%d %.4g\n", i, g_ratio[i]); fclose(o); }
  return rc; }
