// Reference model and checked machine: every operation is performed on the real
// library (through vm.F90) and on an independent model; results are compared.
#pragma once
#include <sys/mman.h>
#include <quadmath.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
typedef __float128 q;

extern "C" {
void fz_var0(int d); void fz_var(int d, double x);
void fz_var_arr(int n, int *d, double *x); void fz_var_arr2(int m, int n, int *d, double *x);
void fz_var_n(int n, int *d); void fz_var_mn(int m, int n, int *d);
void fz_assign(int d, double x); void fz_assign_arr(int n, int *d, double *x, int lay);
void fz_assign_arr0(int n, int *d, double x, int lay);
void fz_assign_mat(int m, int n, int *d, double *x, int lay); void fz_assign_mat0(int m, int n, int *d, double x);
void fz_copy(int d, int s);
double fz_val(int d); double fz_adj(int d); double fz_value_of(int d); void fz_read(int how, int n, int a, const double *x, double *res);
void fz_val_arr(int n, int *d, double *x); void fz_adj_arr(int n, int *d, double *x);
void fz_grad(int d); void fz_grad_nested(int d); void fz_zero_all(); void fz_zero_nested(); void fz_begin(); void fz_end();
void fz_un(int op, int d, int a);
void fz_un_arr(int op, int rank, int *s, int *d, int *a, int lay);
void fz_vv(int op, int d, int a, int b); void fz_vd(int op, int d, int a, double x); void fz_dv(int op, int d, double x, int a);
void fz_bin_arr(int op, int mode, int n, int *d, int *a, int *b, double *x, int lay);
void fz_bin_mat(int op, int mode, int m, int n, int *d, int *a, int *b, double *x);
void fz_overlap(int n, int *d, int *a);
int fz_class(int what, int a, double x); void fz_class_arr(int what, int n, int a, const double *x, int *res); int fz_rel_vv(int op, int a, int b); int fz_rel_vd(int op, int a, double x); int fz_rel_dv(int op, double x, int a);
void fz_rel_arr(int op, int mode, int n, int *a, int *b, double *x, int *res);
void fz_red(int op, int d, int n, int *a, int lay); double fz_lse_d(int n, double *x);
void fz_dot(int mode, int d, int n, int *a, int *b, double *x, int lay);
void fz_matmul(int mode, int m, int k, int n, int *d, int *a, int *b, double *xa, double *xb, int lay);
void fz_lpdf(int which, int mode, int d, int n, double *y, int mu, int sg, double xmu, double xsg, int lay);
double fz_lpdf_dd(int which, int n, double *y, double xmu, double xsg);
void fz_partials(int d, int n, int *a, double x, double *g);
void fz_custom(int kind, int d, double x, int n, int *a, int m, double *g);
void fz_gradient(void (*cb)(void *), void *ctx, int nin, int *inreg, double *x, int *outreg, double *res);
void fz_gradient_s(void (*cb)(void *), void *ctx, int nin, int *inreg, double *x, int *outreg, double *res);
void fz_jacobian(void (*cb)(void *), void *ctx, int nin, int *inreg, double *x, int nout, int *outreg, double *res);
extern int fz_obs_calls, fz_obs_nop, fz_obs_ndop; extern double fz_obs_val, fz_obs_adj, fz_obs_op[4096], fz_obs_dop[4096];
}

extern int g_open;      // environments this execution still has open
static inline void lib_begin() { fz_begin(); ++g_open; }
static inline void lib_end() { fz_end(); if (g_open > 0) --g_open; }
#define fz_begin lib_begin
#define fz_end lib_end

enum Un { NEG, POS, ABS, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, ASINH, ACOSH, ATANH, SQRT, EXP, LOG,
          INV, SQUARE, INV_SQUARE, INV_SQRT, LOGIT, INV_LOGIT, ERF, ERFC, LOG_GAMMA, NUN };
enum Bi { ADD, SUB, MUL, DIV, POW, HYPOT, NBI };
static const char *UNN[] = {"neg","pos","abs","sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","asinh","acosh","atanh","sqrt","exp","log",
  "inv","square","inv_square","inv_sqrt","logit","inv_logit","erf","erfc","log_gamma"};
static const char *BIN[] = {"+","-","*","/","**","hypot"};
static const char *RELN[] = {"==","/=","<","<=",">",">="};

static inline bool fin(q x) { return !isnanq(x) && !isinfq(x); }
static const q PIQ = M_PIq;

// digamma in quad precision: recurrence + asymptotic series, reflection for x < 0.5
static q digamma_q(q x) {
  if (x < 0.5Q) {
    // cot(pi x) with the fractional part reduced exactly
    q fr = x - roundq(x);
    return digamma_q(1 - x) - PIQ / tanq(PIQ * fr);
  }
  q s = 0;
  while (x < 40) { s -= 1 / x; x += 1; }
  static const q B[] = {1.0Q/6, -1.0Q/30, 1.0Q/42, -1.0Q/30, 5.0Q/66, -691.0Q/2730, 7.0Q/6, -3617.0Q/510, 43867.0Q/798, -174611.0Q/330};
  q r = logq(x) - 0.5Q / x, x2 = 1 / (x * x), p = x2;
  for (int k = 0; k < 10; k++) { r -= B[k] / (2 * (k + 1)) * p; p *= x2; }
  return s + r;
}

// value and derivative in quad, absolute tolerances for both. returns false if x is not in the
// interior of the differentiable domain (or the result is outside the double range)
struct Pt { q v, d, vt, dt; };
static const q RT = 1e-12Q;       // relative rounding tolerance for elementary functions
static bool un_dom(int op, double x) {
  if (std::isnan(x) || std::isinf(x)) return false;
  switch (op) {
  case ABS: return x != 0;
  case ASIN: case ACOS: case ATANH: return fabs(x) < 1;
  case ACOSH: return x > 1;
  case SQRT: case LOG: case INV_SQRT: return x > 0;
  case INV: case INV_SQUARE: return x != 0;
  case LOGIT: return x > 0 && x < 1;
  case LOG_GAMMA: return x > 0 || x != floor(x);
  default: return true;
  }
}
static bool un_ref(int op, double xd, Pt &o) {
  if (!un_dom(op, xd)) return false;
  q x = xd, v, d, vt = -1, dt = -1;
  switch (op) {
  case NEG: v = -x; d = -1; break;
  case POS: v = x; d = 1; break;
  case ABS: v = fabsq(x); d = x > 0 ? 1 : -1; break;
  case SIN: v = sinq(x); d = cosq(x); break;
  case COS: v = cosq(x); d = -sinq(x); break;
  case TAN: { v = tanq(x); q c = cosq(x); d = 1 / (c * c); } break;
  case ASIN: { v = asinq(x); d = 1 / sqrtq((1 - x) * (1 + x)); dt = fabsq(d) * (1e-12Q + 1e-15Q / ((1 - x) * (1 + x))); } break;
  case ACOS: { v = acosq(x); d = -1 / sqrtq((1 - x) * (1 + x)); dt = fabsq(d) * (1e-12Q + 1e-15Q / ((1 - x) * (1 + x))); } break;
  case ATAN: v = atanq(x); d = 1 / (1 + x * x); break;
  case SINH: v = sinhq(x); d = coshq(x); break;
  case COSH: v = coshq(x); d = sinhq(x); break;
  case TANH: { v = tanhq(x); q c = coshq(x); d = 1 / (c * c); dt = 1e-12Q * d + 2e-15Q; } break;
  case ASINH: v = asinhq(x); d = 1 / sqrtq(1 + x * x); break;
  case ACOSH: { v = acoshq(x); q w = (x - 1) * (x + 1); d = 1 / sqrtq(w); dt = d * (1e-12Q + 1e-15Q * (x * x / w)); } break;
  case ATANH: { v = atanhq(x); q w = (1 - x) * (1 + x); d = 1 / w; dt = d * (1e-12Q + 1e-15Q / w); } break;
  case SQRT: v = sqrtq(x); d = 0.5Q / v; break;
  case EXP: v = expq(x); d = v; break;
  case LOG: v = logq(x); d = 1 / x; break;
  case INV: v = 1 / x; d = -1 / (x * x); break;
  case SQUARE: v = x * x; d = 2 * x; break;
  case INV_SQUARE: v = 1 / (x * x); d = -2 / (x * x * x); break;
  case INV_SQRT: v = 1 / sqrtq(x); d = -0.5Q / (x * sqrtq(x)); break;
  case LOGIT: { v = logq(x / (1 - x)); d = 1 / (x * (1 - x)); vt = 1e-12Q * fabsq(v) + 1e-14Q; dt = d * (1e-12Q + 4e-16Q / (1 - x)); } break;
  case INV_LOGIT: { v = x >= 0 ? 1 / (1 + expq(-x)) : expq(x) / (1 + expq(x)); q w = x >= 0 ? expq(-x) / (1 + expq(-x)) : 1 / (1 + expq(x)); d = v * w; dt = 1e-12Q * d + 1e-15Q; if (x < 0) dt = 1e-12Q * d; } break;
  case ERF: v = erfq(x); d = M_2_SQRTPIq * expq(-x * x); dt = fabsq(d) * (1e-12Q + 1e-15Q * x * x); break;
  case ERFC: v = erfcq(x); d = -M_2_SQRTPIq * expq(-x * x); vt = fabsq(v) * 1e-11Q; dt = fabsq(d) * (1e-12Q + 1e-15Q * x * x); break;
  case LOG_GAMMA: {
    v = lgammaq(x); d = digamma_q(x); vt = 1e-12Q * fabsq(v) + 1e-14Q;
    dt = 1e-12Q * fabsq(d) + 1e-14Q;
    if (x < 0) { q fr = fabsq(x - roundq(x)); vt += 1e-15Q * fabsq(x) * (1 / fr + fabsq(d)); dt = 2e-12Q * (fabsq(d) + 1 + 1 / fr); }
  } break;
  default: return false;
  }
  if (!fin(v) || !fin(d)) return false;
  // near the limits of the double range, intermediate over/underflow is rounding
  q big = 1e300Q, small = 1e-290Q;
  if (fabsq(v) > big || fabsq(d) > big) return false;
  if ((v != 0 && fabsq(v) < small) ) return false;
  if (op == TANH || op == COSH || op == SINH) { if (fabsq(x) > 350) return false; }
  if (op == INV_SQUARE && (fabsq(x) > 1e100Q || fabsq(x) < 1e-100Q)) return false;
  if (op == ASINH && (fabsq(x) > 1e150Q)) return false;
  if (op == ACOSH && (fabsq(x) > 1e150Q)) return false;
  if (op == ATAN && (fabsq(x) > 1e150Q)) return false;
  if (op == TAN && (fabsq(v) > 1e7Q)) return false;
  if ((op == SIN || op == COS || op == TAN) && fabsq(x) > 1e15Q) return false;
  if (vt < 0) vt = RT * fabsq(v);
  if (dt < 0) dt = RT * fabsq(d);
  o.v = v; o.d = d; o.vt = vt + 1e-300Q; o.dt = dt + 1e-300Q;
  return true;
}
// binary: value, partials. need: bit0 partial wrt a, bit1 wrt b
struct Pt2 { q v, da, db, vt, dat, dbt; };
static bool bi_ref(int op, double ad, double bd, int need, Pt2 &o) {
  if (!std::isfinite(ad) || !std::isfinite(bd)) return false;
  q a = ad, b = bd, v = 0, da = 0, db = 0; q r = RT;
  switch (op) {
  case ADD: v = a + b; da = db = 1; break;
  case SUB: v = a - b; da = 1; db = -1; break;
  case MUL: v = a * b; da = b; db = a; break;
  case DIV: if (bd == 0) return false; v = a / b; da = 1 / b; db = -a / (b * b); break;
  case POW:
    if (ad > 0) { v = powq(a, b); da = b * powq(a, b - 1); db = v * logq(a); }
    else if (!(need & 2) && ad < 0 && bd == floor(bd)) { v = powq(a, b); da = bd == 0 ? 0 : b * powq(a, b - 1); }
    else if (!(need & 2) && ad == 0 && bd >= 2) { v = 0; da = 0; }           // constant exponent, base 0
    else if (!(need & 1) && ad == 0 && bd > 0) { v = 0; db = 0; }            // constant base 0
    else return false;
    r = RT + 1e-15Q * fabsq(b) ;
    break;
  case HYPOT: v = hypotq(a, b); if (v == 0) return false; da = a / v; db = b / v; break;
  default: return false;
  }
  q big = 1e300Q, small = 1e-290Q;
  if (!fin(v) || !fin(da) || !fin(db)) return false;
  if (fabsq(v) > big || (v != 0 && fabsq(v) < small)) return false;
  if (need & 1) if (fabsq(da) > big || (da != 0 && fabsq(da) < small)) return false;
  if (need & 2) if (fabsq(db) > big || (db != 0 && fabsq(db) < small)) return false;
  o.v = v; o.da = da; o.db = db; o.vt = r * fabsq(v) + 1e-300Q;
  if (op == ADD || op == SUB) o.vt = RT * 1e-3Q * (fabsq(a) + fabsq(b)) * 0 + RT * fabsq(v) + 1e-300Q;
  o.dat = r * fabsq(da) + 1e-300Q; o.dbt = r * fabsq(db) + 1e-300Q;
  return true;
}

struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
struct Skip {};       // infeasible program (operation outside its domain)

__attribute__((unused)) static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
static std::string qs(q x) { char b[64]; quadmath_snprintf(b, sizeof b, "%.17Qg", x); return b; }

extern uint64_t *g_transitions, *g_checks;       // shared counters (explore.h)
void note_state(uint64_t h);                     // distinct model state

struct Edge { int op; q p, pt; };
struct Node { double v; std::vector<Edge> e; bool alias = false; };

// Machine: a program under construction. Node i lives in register base+i.
struct Machine {
  std::vector<Node> n;
  int base = 0;
  std::string log;
  bool ckval = true;         // judge values (off where only derivatives are the subject)
  int reg(int i) const { return base + i; }
  void say(const char *f, ...) __attribute__((format(printf, 2, 3))) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (log.size() < 20000) { log += b; log += "\n"; }
    ++*g_transitions;
  }
  [[noreturn]] void bad(const std::string &w) { throw Violation(w + "\nprogram:\n" + log); }
  double v(int i) const { return n[i].v; }
  // compare the library's value with the model's
  void chkval(int i, q ref, q tol, const char *what) {
    double got = fz_val(reg(i)); ++*g_checks;
    if (ckval && !(fabsq((q)got - ref) <= tol)) bad(fmt("value of node %d (%s): got %.17g, expected %s", i, what, got, qs(ref).c_str()));
    n[i].v = got;
  }
  int add() { n.emplace_back(); return (int)n.size() - 1; }
  int leaf(double x) { int i = add(); say("n%d = var(%.17g)", i, x); fz_var(reg(i), x); chkval(i, x, 0, "leaf"); return i; }
  int un(int op, int a) {
    Pt p; if (!un_ref(op, n[a].v, p)) throw Skip();
    int i = add(); say("n%d = %s(n%d)", i, UNN[op], a);
    fz_un(op, reg(i), reg(a));
    chkval(i, p.v, p.vt, UNN[op]);
    edge(i, a, p.d, p.dt); finish(i); return i;
  }
  void edge(int i, int a, q p, q pt) { n[i].e.push_back({a, p, pt}); }
  void finish(int i) {   // identity results may be the operand itself
    if (n[i].e.size() == 1 && n[i].e[0].p == 1 && n[n[i].e[0].op].v == n[i].v) n[i].alias = true;
  }
  int vv(int op, int a, int b) {
    Pt2 p; if (!bi_ref(op, n[a].v, n[b].v, 3, p)) throw Skip();
    int i = add(); say("n%d = n%d %s n%d", i, a, BIN[op], b);
    fz_vv(op, reg(i), reg(a), reg(b));
    chkval(i, p.v, p.vt, BIN[op]); edge(i, a, p.da, p.dat); edge(i, b, p.db, p.dbt); return i;
  }
  int vd(int op, int a, double c) {
    Pt2 p; if (!bi_ref(op, n[a].v, c, 1, p)) throw Skip();
    int i = add(); say("n%d = n%d %s %.17g", i, a, BIN[op], c);
    fz_vd(op, reg(i), reg(a), c);
    chkval(i, p.v, p.vt, BIN[op]); edge(i, a, p.da, p.dat); finish(i); return i;
  }
  int dv(int op, double c, int b) {
    Pt2 p; if (!bi_ref(op, c, n[b].v, 2, p)) throw Skip();
    int i = add(); say("n%d = %.17g %s n%d", i, c, BIN[op], b);
    fz_dv(op, reg(i), c, reg(b));
    chkval(i, p.v, p.vt, BIN[op]); edge(i, b, p.db, p.dbt); finish(i); return i;
  }
  int copy(int a) {
    int i = add(); say("n%d = n%d   (copy)", i, a); fz_copy(reg(i), reg(a)); chkval(i, n[a].v, 0, "copy");
    edge(i, a, 1, 0); n[i].alias = true; return i;
  }
  std::vector<int> regs(const std::vector<int> &a) { std::vector<int> r; for (int x : a) r.push_back(reg(x)); return r; }
  static std::string lst(const std::vector<int> &a) { std::string s; for (size_t i = 0; i < a.size() && i < 40; i++) s += fmt("%sn%d", i ? "," : "", a[i]); return s; }
  // ---- reductions
  void red_edges(int op, int i, const std::vector<int> &a, q &val, q &vt) {
    size_t k = a.size(); q s = 0, sa = 0;
    if (op == 0) { for (int x : a) { s += n[x].v; sa += fabsq((q)n[x].v); } val = s; vt = 1e-15Q * k * sa + 1e-13Q * fabsq(s) + 1e-300Q; for (int x : a) edge(i, x, 1, 0); }
    else if (op == 1) { for (int x : a) s += (q)n[x].v * n[x].v; s = sqrtq(s); val = s; vt = (RT + 1e-15Q * k) * s + 1e-300Q; for (int x : a) { q p = n[x].v / s; edge(i, x, p, (RT + 1e-15Q * k) * fabsq(p) + 1e-300Q); } }
    else { q m = n[a[0]].v; for (int x : a) if ((q)n[x].v > m) m = n[x].v; for (int x : a) s += expq(n[x].v - m); val = m + logq(s); vt = RT * (fabsq(m) + 1e-2Q) + 1e-15Q * k; for (int x : a) { q p = expq(n[x].v - val); edge(i, x, p, (RT + 1e-15Q * (fabsq(m) + k)) * p + 1e-300Q); } }
  }
  int red(int op, const std::vector<int> &a, int lay = 0) {
    static const char *N[] = {"sum", "norm2", "log_sum_exp"};
    if (op == 1) { bool z = true; for (int x : a) if (n[x].v != 0) z = false; if (z) throw Skip(); }
    auto r = regs(a); int i = add(); say("n%d = %s([%s]) size %zu layout %d", i, N[op], lst(a).c_str(), a.size(), lay);
    fz_red(op, reg(i), (int)r.size(), r.data(), lay);
    q val, vt; red_edges(op, i, a, val, vt); chkval(i, val, vt, N[op]); finish(i); return i;
  }
  int dot(int mode, const std::vector<int> &a, const std::vector<int> &b, std::vector<double> x, int lay = 0) {
    // mode 0: a.b ; 1: a.x ; 2: x.b
    size_t k = mode == 2 ? b.size() : a.size();
    auto ra = regs(mode == 2 ? b : a), rb = regs(mode == 1 ? a : b); x.resize(k, 0.0);
    int i = add(); say("n%d = dot(mode %d,[%s],[%s]) size %zu layout %d", i, mode, lst(a).c_str(), lst(b).c_str(), k, lay);
    fz_dot(mode, reg(i), (int)k, ra.data(), rb.data(), x.data(), lay);
    dot_edges(mode, i, a, b, x, k); return i;
  }
  void dot_edges(int mode, int i, const std::vector<int> &a, const std::vector<int> &b, const std::vector<double> &x, size_t k) {
    q s = 0, sa = 0;
    for (size_t j = 0; j < k; j++) {
      q l = mode == 2 ? (q)x[j] : (q)n[a[j]].v, r = mode == 1 ? (q)x[j] : (q)n[b[j]].v;
      s += l * r; sa += fabsq(l * r);
      if (mode != 2) edge(i, a[j], r, 0);
      if (mode != 1) edge(i, b[j], l, 0);
    }
    chkval(i, s, 1e-15Q * (k + 2) * sa + 1e-300Q, "dot_product/matmul element"); finish(i);
  }
  std::vector<int> matmul(int mode, int M, int K, int N, const std::vector<int> &a, const std::vector<int> &b, std::vector<double> xa, std::vector<double> xb, int lay) {
    std::vector<int> d, rd; xa.resize(M * K, 0.); xb.resize(K * N, 0.);
    std::vector<int> ra = mode == 2 ? std::vector<int>(M * K, reg(0)) : regs(a), rb = mode == 1 ? std::vector<int>(K * N, reg(0)) : regs(b);
    for (int i = 0; i < M * N; i++) d.push_back(add());
    rd = regs(d);
    say("n%d.. = matmul(mode %d, %dx%dx%d, [%s],[%s]) layout %d", d.empty() ? -1 : d[0], mode, M, K, N, lst(a).c_str(), lst(b).c_str(), lay);
    fz_matmul(mode, M, K, N, rd.data(), ra.data(), rb.data(), xa.data(), xb.data(), lay);
    for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) {
      std::vector<int> row, col; std::vector<double> x;
      for (int k = 0; k < K; k++) {
        if (mode != 2) row.push_back(a[i + M * k]);
        if (mode != 1) col.push_back(b[k + K * j]);
        if (mode == 1) x.push_back(xb[k + K * j]);
        if (mode == 2) x.push_back(xa[i + M * k]);
      }
      dot_edges(mode, d[i + M * j], row, col, x, K);
    }
    return d;
  }
  int partials(const std::vector<int> &a, double x, std::vector<double> g) {
    auto r = regs(a); int i = add(); say("n%d = var_with_partials(%.17g,[%s])", i, x, lst(a).c_str());
    fz_partials(reg(i), (int)r.size(), r.data(), x, g.data());
    for (size_t j = 0; j < a.size(); j++) edge(i, a[j], g[j], 0);
    chkval(i, x, 0, "var_with_partials"); return i;
  }
  int custom(int kind, double x, const std::vector<int> &a, std::vector<double> g) {
    auto r = regs(a); int i = add(); say("n%d = custom kind %d nop %zu ndop %zu [%s]", i, kind, a.size(), g.size(), lst(a).c_str());
    double dummy = 0; int di = 0;
    fz_custom(kind, reg(i), x, (int)r.size(), r.empty() ? &di : r.data(), (int)g.size(), g.empty() ? &dummy : g.data());
    q s = 0, sa = 0; for (double y : g) { s += y; sa += fabsq((q)y); }
    if (kind == 0 || kind == 1) s = sa = 0;
    if (kind == 1 || kind == 3) for (size_t j = 0; j < a.size(); j++) { q p = (q)(j + 1) + 0.5Q * n[a[j]].v + s; edge(i, a[j], p, 1e-14Q * (j + 2 + fabsq((q)n[a[j]].v) + sa * (1 + g.size() * 0.1Q))); }
    chkval(i, x, 0, "custom"); return i;
  }
  int lpdf(int which, int mode, std::vector<double> y, int mu, int sg, double xmu, double xsg, int lay) {
    q m = mode == 2 ? (q)xmu : (q)n[mu].v, s = mode == 1 ? (q)xsg : (q)n[sg].v;
    if (!(s > 0)) throw Skip();
    for (double z : y) if (which == 1 && !(z > 0)) throw Skip();
    int i = add(); say("n%d = %s_lpdf(mode %d, %zu data, mu=%s, sigma=%s) layout %d", i, which ? "lognormal" : "normal", mode, y.size(), qs(m).c_str(), qs(s).c_str(), lay);
    fz_lpdf(which, mode, reg(i), (int)y.size(), y.data(), mode == 2 ? reg(0) : reg(mu), mode == 1 ? reg(0) : reg(sg), xmu, xsg, lay);
    q v = 0, va = 0, gm = 0, gma = 0, gs = 0, gsa = 0;
    for (double z : y) {
      q l = which ? logq((q)z) : (q)z, t = (l - m) / s; q c = (fabsq(l) + fabsq(m)) / s;  // condition of t
      q ti = -0.5Q * t * t - logq(s) - (which ? l : 0) - 0.5Q * logq(2 * PIQ);
      v += ti; va += fabsq(t) * c + fabsq(logq(s)) + (which ? fabsq(l) : 0) + 1;
      gm += t / s; gma += c / s; gs += (t * t - 1) / s; gsa += (2 * fabsq(t) * c + 1) / s;
    }
    q k = 1e-14Q * (2 + y.size() * 0.05Q);
    chkval(i, v, k * va, "lpdf");
    if (mode != 2) edge(i, mu, gm, k * gma);
    if (mode != 1) edge(i, sg, gs, k * gsa);
    return i;
  }
  // ---- model of a gradient sweep from a clean state
  void ref_adj(int root, std::vector<q> &A, std::vector<q> &E, size_t lo = 0) {
    size_t N = n.size(); A.assign(N, 0); E.assign(N, 0); std::vector<q> M(N, 0);
    A[root] = 1; M[root] = 1;
    for (int i = (int)N - 1; i >= (int)lo; i--) if (M[i] != 0) for (auto &e : n[i].e) {
      q ap = fabsq(e.p);
      A[e.op] += e.p * A[i]; M[e.op] += ap * M[i] + 1e-320Q; E[e.op] += ap * E[i] + (e.pt + 4e-16Q * ap) * M[i];
    }
    for (size_t i = 0; i < N; i++) E[i] = 4 * E[i] + 1e-14Q * M[i] + (M[i] != 0 ? 1e-300Q : 0);
  }
  bool cmp_adj(int i, int root, const std::vector<q> &A, const std::vector<q> &E, std::string *why) {
    if (n[i].alias && i != root) return true;
    double g = fz_adj(reg(i)); ++*g_checks;
    if (!fin(A[i]) || fabsq(A[i]) > 1e300Q || !fin(E[i])) return true;
    if (!(fabsq((q)g - A[i]) <= E[i])) { *why = fmt("after grad of n%d: adjoint of n%d is %.17g, expected %s", root, i, g, qs(A[i]).c_str()); return false; }
    return true;
  }
  // zero, sweep from root, compare every adjoint
  void grad_check(int root) {
    say("zero_all; n%d.grad", root);
    fz_zero_all(); fz_grad(reg(root)); cmp_all(root);
  }
  void cmp_all(int root) {
    std::vector<q> A, E; ref_adj(root, A, E); std::string w;
    // an alias root's own node is its operand: its adjoint is 1 as well (covered by A)
    for (size_t i = 0; i < n.size(); i++) if (!cmp_adj((int)i, root, A, E, &w)) bad(w);
  }
  void values_check(const char *when) {
    for (size_t i = 0; i < n.size(); i++) { double g = fz_val(reg(i)); ++*g_checks; if (memcmp(&g, &n[i].v, 8) != 0 && !(g == n[i].v)) bad(fmt("value of n%zu changed %s: was %.17g, is %.17g", i, when, n[i].v, g)); }
  }
  std::vector<double> adjs() { std::vector<double> r; for (size_t i = 0; i < n.size(); i++) r.push_back(fz_adj(reg(i))); return r; }
  void adjs_check(const std::vector<double> &b, const char *when) { for (size_t i = 0; i < b.size(); i++) { double g = fz_adj(reg(i)); ++*g_checks; if (memcmp(&g, &b[i], 8)) bad(fmt("adjoint of n%zu changed %s: was %.17g, is %.17g", i, when, b[i], g)); } }
  uint64_t hash() const {
    uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t x) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; };
    if (n.empty()) for (unsigned char c : log) mix(c);
    for (auto &x : n) { uint64_t b; memcpy(&b, &x.v, 8); mix(b); for (auto &e : x.e) { mix(e.op + 1); double p = (double)e.p; memcpy(&b, &p, 8); mix(b); } mix(77); }
    return h;
  }
};

// ---- families of executions
struct Family {
  std::string name, rule;
  uint64_t count;
  std::function<void(uint64_t, Machine &)> run;   // runs one execution (throws Violation / Skip); m is fresh
  uint64_t batch = 64;      // executions sharing one process (library state carries over)
  int limit_s = 30;         // time limit for one batch
  bool stop_ok = false;     // a stop with an error status is an accepted outcome
  bool sig_ok = false;      // so is termination by a signal
  uint32_t max_stops = 0;   // so many stops with an error status are accepted (batch must be 1)
  uint32_t *stops = (uint32_t *)mmap(0, sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
};
typedef std::vector<Family> Fams;
// mixed-radix decoding of an index
struct Idx { uint64_t x; Idx(uint64_t i) : x(i) {} uint64_t pick(uint64_t n) { uint64_t r = x % n; x /= n; return r; } };

// ---- programs: one step = one operation creating one node
enum KT { K_UN, K_VV, K_VD, K_DV, K_COPY, K_SUM3, K_SUM2, K_LSE2, K_NORM2, K_DOT2, K_DOT1D, K_MM, K_MMD, K_PART2, K_CUST2, K_LEAF, K_LPDF, K_LPDF1, K_SUM1, K_NORM1, K_LSE1, K_DOT1, K_DOTC1, K_MM1, K_PART1, K_CUST1 };
struct Kind { int type; int op; double c; int arity; };
inline Kind kun(int op) { return {K_UN, op, 0, 1}; }
inline Kind kvv(int op) { return {K_VV, op, 0, 2}; }
inline Kind kvd(int op, double c) { return {K_VD, op, c, 1}; }
inline Kind kdv(int op, double c) { return {K_DV, op, c, 1}; }
inline Kind kcopy() { return {K_COPY, 0, 0, 1}; }
inline Kind kx(int t, int ar = 2) { return {t, 0, 0, ar}; }
inline Kind kleaf(double c) { return {K_LEAF, 0, c, 0}; }
typedef std::vector<Kind> Alpha;
inline uint64_t steps(const Alpha &A, uint64_t m) { uint64_t s = 0; for (auto &k : A) s += k.arity == 2 ? m * m : k.arity == 1 ? m : 1; return s; }
inline uint64_t progs(const Alpha &A, uint64_t m, int N) { uint64_t s = 1; for (int i = 0; i < N; i++) s *= steps(A, m + i); return s; }
inline int apply(Machine &M, const Kind &k, int a, int b) {
  switch (k.type) {
  case K_UN: return M.un(k.op, a);
  case K_VV: return M.vv(k.op, a, b);
  case K_VD: return M.vd(k.op, a, k.c);
  case K_DV: return M.dv(k.op, k.c, a);
  case K_COPY: return M.copy(a);
  case K_SUM3: return M.red(0, {a, b, a});
  case K_SUM2: return M.red(0, {a, b});
  case K_NORM2: return M.red(1, {a, b});
  case K_LSE2: return M.red(2, {a, b});
  case K_DOT2: return M.dot(0, {a, b}, {b, a}, {});
  case K_DOT1D: return M.dot(1, {a, b}, {}, {0.5, -1.25});
  case K_MM: return M.matmul(0, 1, 2, 1, {a, b}, {b, b}, {}, {}, 0)[0];
  case K_MMD: return M.matmul(2, 1, 2, 1, {}, {a, b}, {1.5, -0.25}, {}, 0)[0];
  case K_PART2: return M.partials({a, b}, 0.7, {1.5, -0.25});
  case K_CUST2: return M.custom(3, 0.3, {a, b}, {0.25, 0.5});
  case K_LEAF: return M.leaf(k.c);
  case K_LPDF: return M.lpdf(0, 0, {0.4, -1.0}, a, b, 0, 0, 0);
  case K_SUM1: return M.red(0, {a});
  case K_NORM1: return M.red(1, {a});
  case K_LSE1: return M.red(2, {a});
  case K_DOT1: return M.dot(0, {a}, {b}, {});
  case K_DOTC1: return M.dot(1, {a}, {}, {1.0});
  case K_MM1: return M.matmul(1, 1, 1, 1, {a}, {}, {}, {1.0}, 0)[0];
  case K_PART1: return M.partials({a}, 0.7, {1.0});
  case K_CUST1: return M.custom(3, 0.3, {a}, {0.5});
  case K_LPDF1: return M.lpdf(1, 1, {0.4, 1.7}, a, -1, 0, 1.5, 0);
  }
  abort();
}
// perform step number s of the steps possible with nodes [lo,lo+m)
inline int step(Machine &M, const Alpha &A, uint64_t s, int m, int lo = 0) {
  for (auto &k : A) {
    uint64_t w = k.arity == 2 ? (uint64_t)m * m : k.arity == 1 ? m : 1;
    if (s < w) return apply(M, k, lo + (int)(s % m), lo + (int)(s / m));
    s -= w;
  }
  abort();
}
std::vector<Kind> all_kinds();
extern int g_cap;       // initial capacity the library variant was built with (0: default)
