// C01 values, C02 partials, C10 comparisons, C20 invalid arithmetic
#include "fz.h"
#include <set>
#include <limits>
#include <memory>
typedef std::shared_ptr<std::vector<double>> VP;
static const double INF = std::numeric_limits<double>::infinity(), NAN_ = std::numeric_limits<double>::quiet_NaN();
std::vector<Kind> all_kinds() {
  Alpha A;
  for (int o = 0; o < NUN; o++) A.push_back(kun(o));
  for (int o = 0; o < NBI; o++) { A.push_back(kvv(o)); A.push_back(kvd(o, 1.75)); A.push_back(kdv(o, 1.75)); }
  A.push_back(kcopy());
  for (int t : {K_SUM3, K_LSE2, K_NORM2, K_DOT2, K_DOT1D, K_MM, K_MMD, K_PART2, K_CUST2, K_LPDF}) A.push_back(kx(t));
  A.push_back(kx(K_LPDF1, 1));
  return A;
}
static VP minifloats(int p, int e0, int e1, int estep = 1) {
  auto v = std::make_shared<std::vector<double>>();
  for (int e = e0; e <= e1; e += estep) for (int m = 0; m < (1 << p); m++) for (int s = -1; s <= 1; s += 2) v->push_back(s * ldexp(1 + ldexp(m, -p), e));
  return v;
}
static VP uniq(std::vector<double> w) { std::set<double> s(w.begin(), w.end()); return std::make_shared<std::vector<double>>(s.begin(), s.end()); }
static VP unary_points(bool th) {
  std::vector<double> w = *minifloats(th ? 9 : 5, -40, 40);
  for (int k = -64 * 16; k <= 64 * 16; k++) w.push_back(k / 64.0);
  for (int k = -512; k <= 512; k++) w.push_back(k / 2.0);
  for (int e = 9; e <= 50; e++) for (double f : {0.25, 0.375, 0.625, 1.25, 1.375, 1.75}) for (int g = -1; g <= 1; g += 2) w.push_back(g * (ldexp(1, e) + f));
  for (int k = 1; k <= 52; k++) for (double c : {1.0, -1.0, 0.5, 2.0, -2.0, -3.0, 3.0}) { w.push_back(c + ldexp(1, -k)); w.push_back(c - ldexp(1, -k)); }
  for (int k = -290; k <= 290; k += th ? 1 : 5) for (double c : {1.0, -1.0, 3.7, -3.7}) w.push_back(c * pow(10, k));
  for (int k = 3000; k <= 7600; k += th ? 1 : 20) { w.push_back(k / 10.0); w.push_back(-k / 10.0); }
  if (th) for (int k = -200000; k <= 200000; k++) w.push_back(k / 4099.0);
  return uniq(w);
}
static VP bin_points(bool th) {
  std::vector<double> w = *minifloats(th ? 4 : 2, th ? -12 : -8, th ? 12 : 8);
  for (int k = -12; k <= 12; k++) w.push_back(k);
  for (double x : {0.0, 0.1, -0.1, 0.3, 1e3, -1e3, 1e5, -1e5, 1e-5, 1e10, -1e10, 1e-10, 1e20, 1e-20, 1e100, 1e-100, 1.0000001, 0.9999999, 50., 100., 101., 127.5}) w.push_back(x);
  return uniq(w);
}
// the reference value and derivatives of a single operation from constants
static void one(Machine &m, bool deriv, int root) {
  if (!deriv) return;
  m.grad_check(root);
  int w = m.vd(MUL, root, 3.25); m.grad_check(w);     // incoming adjoint different from 1
}
void fam_ops(Fams &F, bool th, const std::string &sel) {
  if (sel == "C01" || sel == "C02") {
    bool dv = sel == "C02";
    VP up = unary_points(th), bp = bin_points(th);
    F.push_back({"unary", fmt("27 unary operations x %zu operand values (all %d-bit significands with exponents -40..40, k/64 up to 16, k/2 up to 256, fractions next to 2^9..2^50, neighbourhoods 2^-1..2^-52 of -3..3, decades 1e-290..1e290, 300..760)", up->size(), th ? 10 : 6), (uint64_t)NUN * up->size(),
      [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(NUN); double x = (*up)[d.x]; m.ckval = !dv; int a = m.leaf(x); one(m, dv, m.un(op, a)); }, dv ? 100u : 2048u});
    F.push_back({"binary", fmt("6 binary operations x {var-var, var-real, real-var} x all pairs of %zu operand values", bp->size()), (uint64_t)NBI * 3 * bp->size() * bp->size(),
      [=](uint64_t i, Machine &m) { Idx d(i); double y = (*bp)[d.pick(bp->size())], x = (*bp)[d.pick(bp->size())]; int mode = d.pick(3), op = d.x; m.ckval = !dv; int r;
        if (mode == 0) { int a = m.leaf(x), b = m.leaf(y); r = m.vv(op, a, b); } else if (mode == 1) { int a = m.leaf(x); r = m.vd(op, a, y); } else { int b = m.leaf(y); r = m.dv(op, x, b); }
        one(m, dv, r); }, dv ? 100u : 2048u});
    VP np = uniq({0.0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 4, 5, -4, 10, 20, -10, 0.25, 1.5, 2.5, 1e-8, 1e8});
    F.push_back({"shortcut-constants", fmt("6 binary operations x {var-real, real-var} x %zu special constants x all %zu unary operand values", np->size(), up->size()), (uint64_t)NBI * 2 * np->size() * up->size(),
      [=](uint64_t i, Machine &m) { Idx d(i); double c = (*np)[d.pick(np->size())]; int op = d.pick(NBI), mode = d.pick(2); double x = (*up)[d.x]; m.ckval = !dv; int a = m.leaf(x); one(m, dv, mode ? m.dv(op, c, a) : m.vd(op, a, c)); }, dv ? 100u : 4096u});
    F.push_back({"same-operand", "f(x,x) for the 6 binary operations x all unary operand values", (uint64_t)NBI * up->size(),
      [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(NBI); double x = (*up)[d.x]; m.ckval = !dv; int a = m.leaf(x); one(m, dv, m.vv(op, a, a)); }, dv ? 100u : 2048u});
    if (!dv) { static const std::vector<double> rv = {0.0, -0.0, 1, -1, 0.1, 1.0 / 3, -2.5, 1e300, -1e300, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, INF, -INF, NAN_, 123456789.123456789, 9007199254740993.0, -1e-10, 3.5};
      F.push_back({"reading", "11 ways to read values (value_of and val of variables and reals; scalars, arrays, reversed sections, matrices) x 0..9 elements x 20 values", 11 * 10 * 20,
        [=](uint64_t i, Machine &m) { Idx d(i); int how = d.pick(11), n = d.pick(10), off = d.x; double x[9], got[9]; m.say("reading %d values in way %d from value %d", n, how, off);
          for (int k = 0; k < n; k++) { x[k] = rv[(off + k * (1 + off % 3)) % 20]; fz_var(k, x[k]); } fz_read(how, n, 0, x, got);
          for (int k = 0; k < n; k++) { ++*g_checks; if (memcmp(&got[k], &x[k], 8) && !(std::isnan(x[k]) && std::isnan(got[k]))) m.bad(fmt("element %d of %d reads %.17g, expected %.17g", k + 1, n, got[k], x[k])); }
          int nn = m.add(); m.n[nn].v = off; m.edge(nn, 950 + how * 10 + n, 0, 0); }, 512}); }
    auto A = std::make_shared<Alpha>(all_kinds());
    VP cp = uniq({0.3, 0.7, 1.0, -0.6, 2.5, 1.25, -3.5, 0.0});
    uint64_t per = steps(*A, 2) * steps(*A, 3), np2 = cp->size() * cp->size();
    F.push_back({"compositions", "every composition of two operations (all operations, argument mixes and operand choices) x operand values from an 8-point set", per * np2,
      [=](uint64_t i, Machine &m) { Idx d(i); m.ckval = !dv; uint64_t s1 = d.pick(steps(*A, 2)), s2 = d.pick(steps(*A, 3)); double x = (*cp)[d.pick(cp->size())], y = (*cp)[d.x]; m.leaf(x); m.leaf(y); step(m, *A, s1, 2); int r = step(m, *A, s2, 3); if (dv) m.grad_check(r); m.values_check("by later operations"); }, dv ? 60u : 4096u});
  }
  if (sel == "C10") {
    std::vector<double> w = {0.0, -0.0, 1, -1, 2, -2, 0.5, 1.5, 3, -3, 1e300, -1e300, 5e-324, -5e-324, 2.2250738585072014e-308, 1 + 2.220446049250313e-16, 1 - 1.1102230246251565e-16, INF, -INF, NAN_, 1e-300, 7, 7.000000000000001, 0.1, 0.30000000000000004, 0.3, 1e16, 10000000000000002.0, 1.7976931348623157e308, -1.7976931348623157e308, 4294967296.0, -4294967297.0, 2147483648.0, 100.25, -100.25};
    if (th) for (int e = -1074; e < 1024; e += 19) for (double c : {1.0, -1.0, 1.5}) w.push_back(c * ldexp(1, e));
    auto v = std::make_shared<std::vector<double>>(w); uint64_t n = w.size();
    auto ref = [](int op, double a, double b) { switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } };
    F.push_back({"scalar", fmt("6 comparisons x {var-var, var-real, real-var} x all pairs of %zu values (signed zeros, denormals, infinities, NaN, neighbouring doubles)", w.size()), 18 * n * n,
      [=](uint64_t i, Machine &m) { Idx d(i); double a = (*v)[d.pick(n)], b = (*v)[d.pick(n)]; int mode = d.pick(3), op = d.x;
        fz_var(0, a); fz_var(1, b); m.say("%.17g %s %.17g mode %d", a, RELN[op], b, mode); ++*g_checks;
        int g = mode == 0 ? fz_rel_vv(op, 0, 1) : mode == 1 ? fz_rel_vd(op, 0, b) : fz_rel_dv(op, a, 1);
        if (g != (ref(op, a, b) ? 1 : 0)) m.bad(fmt("comparison %.17g %s %.17g (mode %d) gives %d", a, RELN[op], b, mode, g));
        double va = fz_val(0); if (memcmp(&va, &a, 8)) m.bad("comparison changed its operand"); int x = m.add(); m.n[x].v = a; m.edge(x, op + 6 * mode, b, 0); }, 4096});
    F.push_back({"results", "comparisons between results of operations: 27 unary operations x value pairs against the other's value", (uint64_t)NUN * 6 * 3 * 64,
      [=](uint64_t i, Machine &m) { Idx d(i); static const double P[] = {0.25, 0.5, 0.75, 1.5, 2.5, -0.5, 3.0, 0.9}; int un = d.pick(NUN), op = d.pick(6), mode = d.pick(3); double a = P[d.pick(8)], b = P[d.x];
        int x = m.leaf(a), y = m.leaf(b); int u = m.un(un, x), w = m.un(un, y); double fa = m.v(u), fb = m.v(w); ++*g_checks;
        int g = mode == 0 ? fz_rel_vv(op, u, w) : mode == 1 ? fz_rel_vd(op, u, fb) : fz_rel_dv(op, fa, w);
        m.say("n%d %s n%d mode %d", u, RELN[op], w, mode);
        if (g != (ref(op, fa, fb) ? 1 : 0)) m.bad(fmt("comparison %.17g %s %.17g (mode %d) gives %d", fa, RELN[op], fb, mode, g)); }, 2048});
    auto cls = [](int what, double x) { return what < 2 ? std::isnan(x) : what == 2 ? x == INF : x == -INF; };
    F.push_back({"classification", fmt("{is_nan of a variable, of a real, is_inf, is_neg_inf} x arrays of 0..9 elements and scalars x starting offsets into %zu values", w.size()), 4 * 11 * n,
      [=](uint64_t i, Machine &m) { Idx d(i); int what = d.pick(4), len = (int)d.pick(11) - 1, off = d.x; double x[9]; int res[9]; static const char *NM[] = {"is_nan of a variable", "is_nan", "is_inf", "is_neg_inf"};
        m.say("%s, %d elements from value %d", NM[what], len, off);
        for (int k = 0; k < std::max(1, len) && k < 9; k++) { x[k] = (*v)[(off + k * (1 + off % 5)) % n]; fz_var(k, x[k]); }
        if (len < 0) { ++*g_checks; res[0] = fz_class(what, 0, x[0]); if (res[0] != (int)cls(what, x[0])) m.bad(fmt("%s is %d for %.17g", NM[what], res[0], x[0])); }
        else { fz_class_arr(what, len, 0, x, res); for (int k = 0; k < len; k++) { ++*g_checks; if (res[k] != (int)cls(what, x[k])) m.bad(fmt("element %d of %d: %s is %d for %.17g", k + 1, len, NM[what], res[k], x[k])); } }
        for (int k = 0; k < len; k++) { double y = fz_val(k); if (memcmp(&y, &x[k], 8)) m.bad("classification changed its operand"); }
        int nn = m.add(); m.n[nn].v = off; m.edge(nn, 900 + what * 20 + len, 0, 0); }, 1024});
    F.push_back({"arrays", "6 comparisons x 5 array/scalar modes x array lengths 1..9 x starting offsets into the value lattice", 6 * 5 * 9 * n,
      [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(6), mode = d.pick(5), len = 1 + d.pick(9), off = d.x; int a[9], b[9], res[9]; double x[9], y[9];
        for (int k = 0; k < len; k++) { a[k] = k; b[k] = 20 + k; x[k] = (*v)[(off + k) % n]; y[k] = (*v)[(off * 3 + 2 * k) % n]; fz_var(a[k], x[k]); fz_var(b[k], y[k]); }
        fz_rel_arr(op, mode, len, a, b, y, res); m.say("array comparison %s mode %d length %d offset %d", RELN[op], mode, len, off);
        for (int k = 0; k < len; k++) { double r = mode >= 3 ? y[0] : y[k]; bool e = mode == 2 || mode == 4 ? ref(op, r, x[k]) : ref(op, x[k], r); ++*g_checks; if (res[k] != (e ? 1 : 0)) m.bad(fmt("array comparison %s mode %d: element %d of %d is %d for %.17g and %.17g", RELN[op], mode, k + 1, len, res[k], x[k], r)); }
        int nn = m.add(); m.n[nn].v = off; m.edge(nn, op * 100 + mode * 10 + len, 0, 0); }, 1024});
  }
  if (sel == "C20") {
    // expectation: 0 NaN required, 1 infinity of either or given sign, 2 no claim
    std::vector<double> w = {NAN_, INF, -INF, 0.0, -0.0, 1, -1, 0.5, -0.5, 1 + 1e-9, 1 - 1e-9, -1 - 1e-9, 2, -2, 3, -3, -1.5, -2.5, 10, -10, 100, -100, 700, 720, 1000, -720, -1000, 1e10, -1e10, 1e160, -1e160, 1e308, -1e308, 1e-160, 1e-308, 5e-324, -5e-324, 1.5, 0.25, -0.25};
    for (int k = 1; k <= 60; k++) { w.push_back(-k); w.push_back(-k - 0.5); w.push_back(1 + k * 0.25); w.push_back(-1 - k * 0.25); w.push_back(-ldexp(1, -k)); w.push_back(1 + ldexp(1, -std::min(k, 52))); w.push_back(-1 - ldexp(1, -std::min(k, 52))); }
    auto v = std::make_shared<std::vector<double>>(w); uint64_t n = w.size();
    auto uref = [](int op, double x) -> double {
      switch (op) { case NEG: return -x; case POS: return x; case ABS: return fabs(x); case SIN: return sin(x); case COS: return cos(x); case TAN: return tan(x); case ASIN: return asin(x); case ACOS: return acos(x); case ATAN: return atan(x);
        case SINH: return sinh(x); case COSH: return cosh(x); case TANH: return tanh(x); case ASINH: return asinh(x); case ACOSH: return acosh(x); case ATANH: return atanh(x); case SQRT: return sqrt(x); case EXP: return exp(x); case LOG: return log(x);
        case INV: return 1 / x; case SQUARE: return x * x; case INV_SQUARE: return 1 / (x * x); case INV_SQRT: return 1 / sqrt(x); case LOGIT: return x >= 0 && x <= 1 ? log(x / (1 - x)) : NAN; case INV_LOGIT: return 1 / (1 + exp(-x)); case ERF: return erf(x); case ERFC: return erfc(x);
        case LOG_GAMMA: return lgamma(x); } return NAN; };
    auto judge = [](Machine &m, double got, double e, const std::string &what) {
      ++*g_checks;
      if (std::isnan(e)) { if (!std::isnan(got)) m.bad(what + fmt(" = %.17g, expected NaN", got)); }
      else if (std::isinf(e)) { if (std::isfinite(got)) m.bad(what + fmt(" = %.17g, expected %g", got, e)); else if (!std::isnan(got) && got != e) m.bad(what + fmt(" = %.17g, expected %g", got, e)); else if (std::isnan(got)) m.bad(what + fmt(" = NaN, expected %g", e)); }
      else if (std::isnan(got) || std::isinf(got) || fabs(got - e) > 1e-9 * fabs(e) + 1e-300) m.bad(what + fmt(" = %.17g, expected %.17g", got, e));
    };
    F.push_back({"unary", fmt("27 unary operations x %zu invalid, infinite, extreme and ordinary values, each in its own process (a stop with an error status is accepted)", w.size()), (uint64_t)NUN * n,
      [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(NUN); double x = (*v)[d.x]; double e = uref(op, x);
        if (op == LOG_GAMMA && x < 0 && x == floor(x)) e = INF; if (op == LOG_GAMMA && x == -INF) throw Skip();
        if ((op == SIN || op == COS || op == TAN) && std::isfinite(x) && fabs(x) > 1e15) throw Skip();
        if (op == LOG_GAMMA && fabs(x) < 1e-300 && x != 0) throw Skip();
        fz_var(0, x); m.say("%s(%.17g)", UNN[op], x); int nn = m.add(); m.n[nn].v = e; m.edge(nn, op, x == x ? x : 1e99, 0);
        fz_un(op, 1, 0); if (std::isinf(e) && x == 0 && std::isinf(fz_val(1))) e = fz_val(1);
        judge(m, fz_val(1), e, fmt("%s(%.17g)", UNN[op], x));
        bool nan = std::isnan(x);
        if (nan && op != NEG && op != POS) { fz_zero_all(); fz_grad(1); double g = fz_adj(0); ++*g_checks; m.say("grad"); if (!std::isnan(g)) m.bad(fmt("derivative of %s at NaN is %.17g, expected NaN", UNN[op], g)); }
        // the NaN must not poison or be cleaned by a following operation
        if (std::isnan(e)) { fz_vd(MUL, 2, 1, 2.0); judge(m, fz_val(2), NAN_, fmt("2*%s(%.17g)", UNN[op], x)); }
      }, 1, 20, true});
    std::vector<double> bw = {NAN_, INF, -INF, 0.0, -0.0, 1, -1, 0.5, -0.5, 2, -2, 3, -3, 1.5, -1.5, 1e160, -1e160, 1e308, 1e-160, 1e-308, 1000, -1000};
    auto bv = std::make_shared<std::vector<double>>(bw); uint64_t bn = bw.size();
    auto bref = [](int op, double a, double b) -> double { switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; case DIV: return a / b; case POW: return pow(a, b); default: return std::isnan(a) || std::isnan(b) ? NAN : hypot(a, b); } };
    F.push_back({"binary", fmt("6 binary operations x 3 argument mixes x all pairs of %zu values", bw.size()), (uint64_t)NBI * 3 * bn * bn,
      [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(NBI), mode = d.pick(3); double a = (*bv)[d.pick(bn)], b = (*bv)[d.x]; double e = bref(op, a, b);
        if (op == POW && ((std::isnan(a) && b == 0) || (a == 1 && std::isnan(b)))) throw Skip();   // IEEE pow convention: 1
        if (op == HYPOT && ((std::isinf(a) && std::isnan(b)) || (std::isnan(a) && std::isinf(b)))) throw Skip();
        if (op == HYPOT && std::isfinite(a) && std::isfinite(b) && std::isinf(e)) throw Skip();
        if (op == POW && std::isinf(a) && a < 0 && b != floor(b)) throw Skip();      // NaN (outside the real domain) and the IEEE convention are both right
        fz_var(0, a); fz_var(1, b); m.say("%.17g %s %.17g mode %d", a, BIN[op], b, mode); int nn = m.add(); m.n[nn].v = e; m.edge(nn, op * 3 + mode, a == a ? a : 1e99, 0); m.edge(nn, 0, b == b ? b : 1e99, 0);
        if (mode == 0) fz_vv(op, 2, 0, 1); else if (mode == 1) fz_vd(op, 2, 0, b); else fz_dv(op, 2, a, 1);
        if (std::isinf(e) && (a == 0 || b == 0) && std::isinf(fz_val(2))) e = fz_val(2);       // sign of the infinity at a pole in -0 or +0 is a convention
        judge(m, fz_val(2), e, fmt("%.17g %s %.17g (mode %d)", a, BIN[op], b, mode));
        bool na = std::isnan(a), nb = std::isnan(b);
        if ((na || nb) && op >= MUL && !(op == POW && (a == 0 || a == 1 || b == 1 || b == 0))) {   // derivatives that depend on the NaN operand
          fz_zero_all(); fz_grad(2); m.say("grad"); double ga = fz_adj(0), gb = fz_adj(1); ++*g_checks;
          if (mode != 2 && na && op >= POW && !std::isnan(ga)) m.bad(fmt("derivative of %.17g %s %.17g (mode %d) with respect to the left operand is %.17g, expected NaN", a, BIN[op], b, mode, ga));
          if (mode != 1 && nb && op >= DIV && !std::isnan(gb)) m.bad(fmt("derivative of %.17g %s %.17g (mode %d) with respect to the right operand is %.17g, expected NaN", a, BIN[op], b, mode, gb)); }
      }, 64, 20, false});
    F.push_back({"aggregates", "sum, norm2, log_sum_exp, dot_product (3 mixes), matmul, normal/lognormal log density with one invalid entry (NaN, infinities, negative scale, data outside the support) at every position of 1..6", (uint64_t)15 * 6 * 6 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int what = d.pick(15), nn = 1 + d.pick(6), pos = d.pick(6); double badv = d.x == 0 ? NAN_ : d.x == 1 ? INF : -INF; if (pos >= nn) throw Skip();
        int a[6], b[6]; double x[6]; for (int k = 0; k < nn; k++) { a[k] = k; b[k] = 10 + k; x[k] = 0.5 + 0.25 * k; fz_var(k, k == pos ? badv : 0.5 + 0.25 * k); fz_var(10 + k, 1.5 - 0.125 * k); }
        double xb[6]; memcpy(xb, x, sizeof x); xb[pos] = badv; double e = NAN_, got = 0;
        m.say("aggregate %d n %d pos %d bad %g", what, nn, pos, badv); int nd = m.add(); m.n[nd].v = what; m.edge(nd, nn, pos, 0); m.edge(nd, d.x, 0, 0);
        int r = 40;
        switch (what) {
        case 0: case 1: case 2: fz_red(what, r, nn, a, 0); got = fz_val(r); e = std::isnan(badv) ? NAN_ : what == 0 ? badv : what == 1 ? INF : badv > 0 ? INF : NAN_;
          if (what == 2 && badv < 0) { e = 0; if (nn == 1) e = badv; else { for (int k = 0; k < nn; k++) if (k != pos) e += exp(x[k]); e = log(e); } }
          break;
        case 3: fz_dot(0, r, nn, a, b, x, 0); got = fz_val(r); e = std::isnan(badv) ? NAN_ : badv; break;
        case 4: fz_dot(1, r, nn, b, b, xb, 0); got = fz_val(r); e = std::isnan(badv) ? NAN_ : badv; break;
        case 5: fz_dot(2, r, nn, b, b, xb, 0); got = fz_val(r); e = std::isnan(badv) ? NAN_ : badv; break;
        case 6: fz_matmul(0, 1, nn, 1, &r, a, b, x, x, 0); got = fz_val(r); e = std::isnan(badv) ? NAN_ : badv; break;
        case 7: fz_lpdf(0, 0, r, nn, xb, 10, 11 % 10 + 10, 0, 0, 0); if (nn < 2) { fz_var(11, 0.75); fz_lpdf(0, 0, r, nn, xb, 10, 11, 0, 0, 0); } got = fz_val(r); e = std::isnan(badv) ? NAN_ : -INF; break;
        case 8: fz_var(11, NAN_); fz_lpdf(0, 0, r, nn, x, 10, 11, 0, 0, 0); got = fz_val(r); e = NAN_; break;
        case 9: fz_var(11, 0.75); fz_var(10, NAN_); fz_lpdf(1, 0, r, nn, x, 10, 11, 0, 0, 0); got = fz_val(r); e = NAN_; break;
        case 11: fz_var(11, -0.75); fz_lpdf(0, 0, r, nn, x, 10, 11, 0, 0, 0); got = fz_val(r); e = NAN_; break;      // scale outside its domain
        case 12: fz_lpdf(1, 1, r, nn, x, 10, 10, 0, -0.25, 0); got = fz_val(r); e = NAN_; break;
        case 13: fz_var(11, -1e-300); fz_lpdf(0, 2, r, nn, x, 11, 11, 0.4, 0, 1); got = fz_val(r); e = NAN_; break;
        case 14: xb[pos] = -0.5; fz_var(11, 0.75); fz_lpdf(1, d.x, r, nn, xb, 10, 11, 0.3, 0.8, 0); got = fz_val(r); e = NAN_; break;    // data outside the support
        case 10: if (!std::isnan(badv)) throw Skip(); got = fz_lse_d(nn, xb); e = NAN_; break;
        }
        judge(m, got, e, fmt("aggregate %d with entry %d of %d = %g", what, pos + 1, nn, badv));
      }, 1, 20, true});
  }
}
