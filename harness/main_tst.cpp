// C22: every assertion helper, every value pair / element position; the verdict is the exit status of a process
#include "explore.h"
int g_cap = 0, g_open = 0;
extern "C" void tst_call(int what, int m, int n, const double *a, const double *b, double tol, int lay);
static const double INFD = INFINITY;
static const char *W[] = {"expect_near", "expect_float_eq", "expect_dbl_eq", "expect_float_eq(1-D)", "expect_dbl_eq(1-D)", "expect_float_eq(2-D)", "expect_dbl_eq(2-D)", "expect_eq", "expect_true"};
// -1 either, 0 accept, 1 reject
static void judge(Machine &m, int want, bool nan, int what, int mm, int nn, const double *a, const double *b, double tol, int lay) {
  pid_t p = fork();
  if (p == 0) { alarm(20); tst_call(what, mm, nn, a, b, tol, lay); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0) ;
  ++*g_transitions; if (WIFSIGNALED(st)) throw Violation(fmt("%s: crashed (%s)\n%s", W[what], strsignal(WTERMSIG(st)), m.log.c_str()));
  int rej = WEXITSTATUS(st) != 0; ++*g_checks;
  if (nan && !rej && is_known(std::string("NaN accepted by ") + W[what])) return;
  if (want >= 0 && rej != want) throw Violation(fmt("%s %s\n%s", W[what], rej ? "failed although its arguments agree" : "accepted arguments that disagree", m.log.c_str()));
}
static int want_abs(double a, double b, double tol, bool exact) { if (a != a || b != b || tol != tol) return 1; if (std::isinf(a) || std::isinf(b)) return a == b ? -1 : std::isinf(tol) ? -1 : 1;
  q d = fabsq((q)a - b); q lo = tol, hi = tol; if (!exact) { lo = tol / 4; hi = tol * 4 * std::max(1.0, std::max(fabs(a), fabs(b))); } if (!(tol > 0)) return d > 0 ? 1 : -1;
  return d < lo * (1 - 1e-9Q) ? 0 : d > hi * (1 + 1e-9Q) ? 1 : -1; }
static const double UF = 4 * 1.1920929e-7, UD = 4 * 2.220446049250313e-16;
static double tolof(int what, double t) { return what == 0 ? t : what % 2 ? UF : UD; }
void tst_eq(Machine &, int, int, int);
int main(int c, char **v) {
  return explore_main(c, v, [](bool th, const std::string &) { Fams F;
    static std::vector<double> V = {0, -0.0, 1, -1, 1 + 2.3e-16, 1 + 1e-14, 1 + 1e-8, 1 + 1e-5, 1.5, -1.5, 1e-8, -1e-8, 1e-30, 5e-324, 1e10, 1e10 + 1e-3, 1e300, -1e300, NAN, INFD, -INFD, 3, 1 - 1e-12, -1 - 1e-8, 2e-7, 1e-6};
    static std::vector<double> T = {1e-16, 1e-12, 1e-8, 1e-4, 0.5, 2, 1e11, NAN, INFD, 0};
    uint64_t nv = V.size(), nt = T.size();
    F.push_back({"scalar", "expect_near for every pair of 26 values (signed zeros, NaN, infinities, neighbours, extremes) and 10 tolerances; expect_float_eq and expect_dbl_eq for every pair", nv * nv * (nt + 2),
      [=](uint64_t i, Machine &m) { double a = V[i % nv], b = V[i / nv % nv]; uint64_t k = i / nv / nv; int what = k < nt ? 0 : k - nt + 1; double t = tolof(what, k < nt ? T[k] : 0);
        m.say("%s(%.17g, %.17g, tol %g)", W[what], a, b, t); judge(m, want_abs(a, b, t, what == 0), a != a || b != b || t != t, what, 1, 1, &a, &b, t, 0); }, 64});
    int M = th ? 7 : 5;
    F.push_back({"vector", fmt("1-D float_eq and dbl_eq: sizes 0..%d, every subset of differing elements, 7 kinds of difference (incl. NaN on either side, infinite), 3 layouts (contiguous, strided, reversed row section)", M), (uint64_t)(M + 1) * (1u << M) * 7 * 2 * 3,
      [=](uint64_t i, Machine &m) { int n = i % (M + 1); i /= M + 1; unsigned sub = i % (1u << M); i /= 1u << M; int kd = i % 7; i /= 7; int what = 3 + i % 2, lay = i / 2; if (sub >> n) throw Skip(); if (!sub && kd) throw Skip();
        std::vector<double> a(n + 1), b(n + 1); for (int j = 0; j < n; j++) { a[j] = b[j] = (j - 1) * 0.75; if (sub >> j & 1) switch (kd) { case 0: b[j] += what == 3 ? 1e-5 : 1e-13; break; case 1: b[j] -= 1; break; case 2: a[j] = NAN; break; case 3: b[j] = NAN; break; case 4: a[j] = INFD; break; case 5: b[j] = -a[j] - 1e-3; break; case 6: a[j] = b[j] = NAN; } }
        m.say("%s size %d, differing elements mask %x, kind %d, layout %d", W[what], n, sub, kd, lay); judge(m, sub != 0, sub && (kd == 2 || kd == 3 || kd == 6), what, n, 1, a.data(), b.data(), 0, lay); }, 64});
    int R = th ? 5 : 4;
    F.push_back({"matrix", fmt("2-D float_eq and dbl_eq: all shapes 0..%d x 0..%d, one or two differing elements at every position, 7 kinds of difference, 3 layouts (contiguous, strided in both directions, transposed)", R, R), (uint64_t)(R + 1) * (R + 1) * (R * R + 1) * (R * R + 1) * 7 * 2 * 3,
      [=](uint64_t i, Machine &m) { int r = i % (R + 1); i /= R + 1; int cc = i % (R + 1); i /= R + 1; int p = i % (R * R + 1); i /= R * R + 1; int p2 = i % (R * R + 1); i /= R * R + 1; int kd = i % 7; i /= 7; int what = 5 + i % 2, lay = i / 2;
        if (p > r * cc || p2 > p || (p2 && kd > 3) || (!p && kd) || (p2 == p && p)) throw Skip();
        std::vector<double> a(r * std::max(cc, 1) + 1), b(a.size()); for (int j = 0; j < r * cc; j++) { a[j] = b[j] = 0.25 * j - 1; if (j + 1 == p || j + 1 == p2) switch (kd) { case 0: b[j] += what == 5 ? 1e-5 : 1e-13; break; case 1: b[j] -= 1; break; case 2: a[j] = NAN; break; case 3: b[j] = NAN; break; case 4: a[j] = INFD; break; case 5: b[j] = -a[j] - 1e-3; break; case 6: a[j] = b[j] = NAN; } }
        m.say("%s %dx%d, differing elements %d %d, kind %d, layout %d", W[what], r, cc, p, p2, kd, lay); judge(m, p != 0, p && (kd == 2 || kd == 3 || kd == 6), what, r, cc, a.data(), b.data(), 0, lay); }, 256});
    static std::vector<int> I = {0, 1, -1, 2, 7, -7, 255, 256, 65536, 65537, 2147483647, -2147483647, -2147483647 - 1, 16777216, 16777217};
    F.push_back({"integer-logical", "expect_eq for every pair of 15 integers, expect_true for both values", I.size() * I.size() + 2,
      [=](uint64_t i, Machine &m) { double z[1] = {0}; if (i < 2) { m.say("expect_true(%d)", (int)i); judge(m, i == 0, false, 8, i, 0, z, z, 0, 0); return; } i -= 2; int a = I[i % I.size()], b = I[i / I.size()]; m.say("expect_eq(%d, %d)", a, b); tst_eq(m, a != b, a, b); }, 16});
    return F; });
}
extern "C" void tst_int(int a, int b);
void tst_eq(Machine &m, int want, int a, int b) { pid_t p = fork(); if (p == 0) { alarm(20); tst_int(a, b); _exit(0); } int st; while (waitpid(p, &st, 0) < 0) ; ++*g_transitions; ++*g_checks; int rej = !WIFEXITED(st) ? 2 : WEXITSTATUS(st) != 0; if (rej != want) throw Violation(fmt("expect_eq: wrong verdict\n%s", m.log.c_str())); }
