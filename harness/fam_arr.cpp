// C09 array operations, C11 log densities
#include "fz.h"
#include <memory>
#include <algorithm>
#include <functional>
static double val(int k) { static const double V[] = {0.5, -1.25, 2.0, 0.75, -0.3, 1.6, 0.9, -2.2, 1.1, 0.05}; return V[k % 10] + 0.01 * (k / 10); }
static double pos(int k) { return 0.3 + 0.17 * (k % 11) + 0.01 * (k / 11); }
void fam_arr(Fams &F, bool th, const std::string &sel) {
  if (sel == "C09") {
    int NB = th ? 130 : 70;
    F.push_back({"reductions", fmt("sum, norm2, log_sum_exp x lengths 1..%d and 100..2100 selected x {contiguous, strided, reversed} x 5 element patterns (distinct, all equal, period 2, period 3, shifted large values) x {fresh leaves, results of operations}", NB), 3ull * (NB + 10) * 3 * 5 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(3), L = 1 + d.pick(NB + 10), lay = d.pick(3), pat = d.pick(5), der = d.x; static const int X[] = {100, 127, 128, 129, 255, 256, 257, 1000, 1025, 2100}; if (L > NB) L = X[L - NB - 1];
        int distinct = pat == 0 || pat == 4 ? L : pat; std::vector<int> a, l; for (int k = 0; k < distinct; k++) { int x = m.leaf(pat == 4 ? 300 + 0.5 * (k % 40) : val(k)); l.push_back(der ? m.vd(MUL, x, 1.5) : x); }
        for (int k = 0; k < L; k++) a.push_back(l[k % distinct]);
        int r = m.red(op, a, lay); m.grad_check(r); m.grad_check(l[0]); m.grad_check(l[distinct - 1]); int w = m.vv(MUL, r, l[0]); m.grad_check(w); m.values_check("by a reduction"); }, 32});
    // all repetition patterns of short arrays
    F.push_back({"reduction-patterns", "sum, norm2, log_sum_exp, dot_product of all arrays of length 1..5 over 3 variables (every repetition pattern) x 3 layouts x values from 3 sets", 3ull * 3 * 4 * 5 * 243,
      [=](uint64_t i, Machine &m) { Idx d(i); int set = d.pick(3), lay = d.pick(3), op = d.pick(4), L = 1 + d.pick(5); uint64_t t = d.x, lim = 1; for (int k = 0; k < L; k++) lim *= 3; if (t >= lim) throw Skip();
        static const double S[3][3] = {{0.5, -1.25, 2.0}, {1.0, 1.0, 1.0}, {-700, 650, 0.0}}; for (int k = 0; k < 3; k++) m.leaf(S[set][k]); std::vector<int> a; for (int k = 0; k < L; k++) { a.push_back(t % 3); t /= 3; }
        if (op == 3 && lay == 2) throw Skip(); std::vector<int> b(a.rbegin(), a.rend()); int r = op < 3 ? m.red(op, a, lay) : m.dot(0, a, b, {}, lay); m.grad_check(r); int w = m.vv(MUL, r, 1); m.grad_check(w); }, 64});
    F.push_back({"dot", fmt("dot_product x 3 argument mixes x lengths 1..%d and selected up to 2100 x {contiguous, strided} x operand relation {distinct, same array, shared elements, period 2}", NB), 3ull * (NB + 10) * 2 * 4,
      [=](uint64_t i, Machine &m) { Idx d(i); int mode = d.pick(3), L = 1 + d.pick(NB + 10), lay = d.pick(2), rel = d.x; static const int X[] = {100, 127, 128, 129, 255, 256, 257, 1000, 1025, 2100}; if (L > NB) L = X[L - NB - 1];
        std::vector<int> a, b; std::vector<double> x; for (int k = 0; k < L; k++) { if (rel == 3 && k >= 2) a.push_back(a[k - 2]); else a.push_back(m.leaf(val(k))); x.push_back(pos(k) - 0.8); }
        for (int k = 0; k < L; k++) b.push_back(rel == 0 ? m.leaf(pos(k)) : rel == 1 ? a[k] : a[L - 1 - k]);
        int r = m.dot(mode, a, b, x, lay); m.grad_check(r); int w = m.un(SIN, m.vd(MUL, r, 0.01)); m.grad_check(w); }, 32});
    int MB = th ? 6 : 5;
    F.push_back({"matmul", fmt("matmul x 3 argument mixes x all shapes (m,k,n) up to %dx%dx%d x {contiguous, strided interior section, reversed} x operand relation {distinct, repeated elements, shared between both matrices}; gradient of every element", MB, MB, MB), 3ull * MB * MB * MB * 3 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int mode = d.pick(3), M = 1 + d.pick(MB), K = 1 + d.pick(MB), N = 1 + d.pick(MB), lay = d.pick(3), rel = d.x;
        std::vector<int> a, b; std::vector<double> xa, xb; for (int k = 0; k < M * K; k++) { a.push_back(rel == 1 && k >= 3 ? a[k % 3] : m.leaf(val(k))); xa.push_back(pos(k) - 0.9); } for (int k = 0; k < K * N; k++) { b.push_back(rel == 2 ? a[(k * 2 + 1) % a.size()] : m.leaf(pos(k))); xb.push_back(val(k)); }
        auto c = m.matmul(mode, M, K, N, a, b, xa, xb, lay); for (int r : c) m.grad_check(r); int s = m.red(0, c); int w = m.vv(MUL, s, c[0]); m.grad_check(w); m.values_check("by matmul"); }, 8});
    F.push_back({"matmul-large", "matmul x 3 argument mixes x long thin and square shapes up to 1x300x1, 40x3x40, 20x20x20, chained with itself", 3 * 12,
      [=](uint64_t i, Machine &m) { static const int S[12][3] = {{1, 300, 1}, {40, 3, 40}, {20, 20, 20}, {1, 1, 300}, {300, 1, 1}, {1, 40, 40}, {40, 40, 1}, {7, 33, 5}, {33, 2, 9}, {16, 16, 16}, {2, 128, 2}, {64, 1, 9}}; Idx d(i); int mode = d.pick(3); const int *s = S[d.x]; int M = s[0], K = s[1], N = s[2];
        std::vector<int> a, b; std::vector<double> xa, xb; for (int k = 0; k < M * K; k++) { a.push_back(m.leaf(val(k))); xa.push_back(pos(k) - 0.9); } for (int k = 0; k < K * N; k++) { b.push_back(m.leaf(pos(k))); xb.push_back(val(k)); }
        auto c = m.matmul(mode, M, K, N, a, b, xa, xb, 0); m.grad_check(c[0]); m.grad_check(c.back()); m.grad_check(c[c.size() / 2]); m.grad_check(m.red(0, c));
        // second product with the result
        auto e = m.matmul(1, M, N, 2, c, {}, {}, std::vector<double>(N * 2, 0.25), 0); m.grad_check(e[0]); m.grad_check(m.vv(MUL, e.back(), e[0])); }, 1, 60});
    // two operations in a row on arrays that differ a little: nothing of the first one may be taken for the second
    F.push_back({"lookalikes", "every pair of {sum, norm2, log_sum_exp, dot_product in 3 argument mixes (either or both arrays varied)} of 1..6 elements or matmul (3 mixes, shapes up to 3x3x2, either matrix varied) in a row, the second with one element replaced (every position), two swapped, reversed, rotated, an element fewer at either end, of another shape, or alike x {one after the other, both before the gradients, gradients in reverse} x {same level, second one nested}: values and all gradients of both", 12ull * 18 * 18 * 3 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(12), L = d.pick(18), var = d.pick(18), ord = d.pick(3), nest = d.x; int M = 1, K = 1, N = 1; bool mm = op >= 9; int which = 0;
        if (!mm) { if (L >= 6) throw Skip(); L++; if (op >= 3) { which = (op - 3) % 3; } } else { M = 1 + L % 3; K = 1 + L / 3 % 3; N = 1 + L / 9; which = (op - 9) / 1; }
        // op 3..8: dot_product (3 mixes; first or second array varied); op 9..11: matmul mixes
        bool second = op >= 6 && op < 9; int mode = mm ? which : op >= 3 ? (op - 3) % 3 : 0; if (mm) second = mode == 2;
        int la = mm ? M * K : L, lb = mm ? K * N : L; std::vector<int> a, b; std::vector<double> x, xb; for (int k = 0; k < la; k++) { a.push_back(m.leaf(val(k))); x.push_back(pos(k) - 0.8); } for (int k = 0; k < lb; k++) { b.push_back(m.leaf(pos(k))); xb.push_back(val(k) - 0.1); }
        if (op >= 3 && !mm) xb.clear();
        auto run = [&](std::vector<int> &a, std::vector<int> &b, std::vector<double> x, std::vector<double> xb, int M, int K, int N) { std::vector<int> r; if (op < 3) r = {m.red(op, a)}; else if (!mm) r = {m.dot(mode, a, b, x)}; else r = m.matmul(mode, M, K, N, a, b, mode == 2 ? x : std::vector<double>(), mode == 1 ? xb : std::vector<double>(), 0); return r; };
        auto r1 = run(a, b, x, xb, M, K, N); if (ord == 0) for (int r : r1) m.grad_check(r);
        std::vector<int> a2 = a, b2 = b; std::vector<double> x2 = x, xb2 = xb; auto &v = second ? b2 : a2; auto &w = second ? xb2 : x2; int n = v.size(), M2 = M, K2 = K, N2 = N;
        if (var < n) { v[var] = m.leaf(0.37); if ((int)x2.size() > var) x2[var] += 0.7; if ((int)xb2.size() > var) xb2[var] -= 0.6; }
        else if (var < 9) throw Skip();
        else if (var == 9) { if (n < 2) throw Skip(); std::swap(v[0], v[1]); } else if (var == 10) { if (n < 3) throw Skip(); std::swap(v[n - 2], v[n - 1]); } else if (var == 11) { if (n < 3) throw Skip(); std::swap(v[0], v[n - 1]); }
        else if (var == 12) { if (n < 3) throw Skip(); std::reverse(v.begin() + 1, v.end()); } else if (var == 13) { if (n < 3) throw Skip(); std::rotate(v.begin() + 1, v.begin() + 2, v.end()); }
        else if (var == 14 || var == 15) { if (mm || n < 2) throw Skip(); if (var == 14) { a2.pop_back(); b2.pop_back(); x2.pop_back(); } else { a2.erase(a2.begin()); b2.erase(b2.begin()); x2.erase(x2.begin()); } }
        else if (var == 16) { if (!mm || M == K) throw Skip(); std::swap(M2, K2); b2.clear(); xb2.clear(); for (int k = 0; k < K2 * N2; k++) { b2.push_back(m.leaf(0.2 + 0.1 * k)); xb2.push_back(0.4 - 0.1 * k); } }
        if (nest) { m.say("begin"); fz_begin(); }
        auto r2 = run(a2, b2, x2, xb2, M2, K2, N2);
        if (ord == 2) { for (int k = (int)r2.size() - 1; k >= 0; k--) m.grad_check(r2[k]); for (int k = (int)r1.size() - 1; k >= 0; k--) m.grad_check(r1[k]); } else { for (int r : r1) m.grad_check(r); for (int r : r2) m.grad_check(r); }
        if (nest) { m.say("end"); fz_end(); m.n.resize(r2[0]); m.values_check("by a nested environment"); for (int r : r1) m.grad_check(r); } else { m.grad_check(m.vv(MUL, r1[0], r2.back())); m.values_check("by an array operation"); } }, 64});
    F.push_back({"elemental-unary", "27 unary operations on arrays of rank 1 (1..12, contiguous, strided, reversed), rank 2 (up to 4x4) and rank 3 (up to 3x3x3) x {distinct, repeated elements}: each element equals the scalar operation", 27ull * (12 * 3 + 16 + 27) * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(27), rep = d.pick(2), sh = d.x; int rank, lay = 0, s[3] = {1, 1, 1}; if (sh < 36) { rank = 1; s[0] = 1 + sh / 3; lay = sh % 3; } else if (sh < 52) { rank = 2; s[0] = 1 + (sh - 36) / 4; s[1] = 1 + (sh - 36) % 4; } else { rank = 3; sh -= 52; s[0] = 1 + sh / 9; s[1] = 1 + sh / 3 % 3; s[2] = 1 + sh % 3; }
        int n = s[0] * s[1] * s[2]; std::vector<int> a, ra, rd, dn; for (int k = 0; k < n; k++) { double x = op == ACOSH ? 1.1 + pos(k) : op == ASIN || op == ACOS || op == ATANH || op == LOGIT ? 0.05 + 0.033 * k : op == SQRT || op == LOG || op == INV_SQRT || op == LOG_GAMMA ? pos(k) : val(k); a.push_back(rep && k >= 2 ? a[k % 2] : m.leaf(x)); }
        ra = m.regs(a); for (int k = 0; k < n; k++) dn.push_back(m.add()); rd = m.regs(dn); m.say("n%d.. = %s(array rank %d shape %dx%dx%d layout %d)", dn[0], UNN[op], rank, s[0], s[1], s[2], lay); fz_un_arr(op, rank, s, rd.data(), ra.data(), lay);
        for (int k = 0; k < n; k++) { Pt p; if (!un_ref(op, m.v(a[k]), p)) throw Skip(); m.chkval(dn[k], p.v, p.vt, UNN[op]); m.edge(dn[k], a[k], p.d, p.dt); m.finish(dn[k]); }
        m.grad_check(dn[0]); m.grad_check(dn[n - 1]); m.grad_check(dn[n / 2]); m.grad_check(m.red(0, dn)); }, 64});
    F.push_back({"elemental-binary", "6 binary operations x 9 array/scalar/real mixes x lengths 1..9 x {contiguous, strided} x {distinct, same array for both, reversed}; rank 2 up to 4x4 for array-array, array-real, real-array: each element equals the scalar operation", 6ull * (9 * 9 * 2 + 3 * 16) * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(6), rel = d.pick(3), sh = d.x; int mode, n, lay = 0, M = 0, N = 0; if (sh < 162) { mode = sh % 9; n = 1 + sh / 9 % 9; lay = sh / 81; } else { sh -= 162; static const int MM[] = {0, 3, 4}; mode = MM[sh % 3]; M = 1 + sh / 3 / 4; N = 1 + sh / 3 % 4; n = M * N; }
        std::vector<int> a, b, dn; std::vector<double> x; for (int k = 0; k < n; k++) a.push_back(m.leaf(pos(k) + 0.2)); for (int k = 0; k < n; k++) { b.push_back(rel == 0 ? m.leaf(pos(k + 3) - 0.1) : rel == 1 ? a[k] : a[n - 1 - k]); x.push_back(k == 1 ? 1.0 : k == 2 ? 0.0 : k == 3 ? 2.0 : pos(k + 5)); }
        if (mode >= 3) for (int k = 0; k < n; k++) if ((op == DIV || op == POW || op == HYPOT) && x[k] == 0) x[k] = 0.5;
        for (int k = 0; k < n; k++) dn.push_back(m.add()); auto ra = m.regs(a), rb = m.regs(b), rd = m.regs(dn); m.say("n%d.. = array %s mode %d n %d (%dx%d) layout %d [%s],[%s]", dn[0], BIN[op], mode, n, M, N, lay, m.lst(a).c_str(), m.lst(b).c_str());
        if (M) fz_bin_mat(op, mode, M, N, rd.data(), ra.data(), rb.data(), x.data()); else fz_bin_arr(op, mode, n, rd.data(), ra.data(), rb.data(), x.data(), lay);
        for (int k = 0; k < n; k++) { int p = -1, r = -1; double cl = 0, cr = 0;
          switch (mode) { case 0: p = a[k]; r = b[k]; break; case 1: p = a[k]; r = b[0]; break; case 2: p = a[0]; r = b[k]; break; case 3: p = a[k]; cr = x[k]; break; case 4: cl = x[k]; r = b[k]; break; case 5: p = a[k]; cr = x[0]; break; case 6: cl = x[0]; r = b[k]; break; case 7: p = a[0]; cr = x[k]; break; case 8: cl = x[k]; r = b[0]; break; }
          Pt2 o; if (!bi_ref(op, p >= 0 ? m.v(p) : cl, r >= 0 ? m.v(r) : cr, (p >= 0 ? 1 : 0) | (r >= 0 ? 2 : 0), o)) throw Skip();
          m.chkval(dn[k], o.v, o.vt, BIN[op]); if (p >= 0) m.edge(dn[k], p, o.da, o.dat); if (r >= 0) m.edge(dn[k], r, o.db, o.dbt); m.finish(dn[k]); }
        m.grad_check(dn[0]); m.grad_check(dn[n - 1]); m.grad_check(dn[n / 2]); m.grad_check(m.red(0, dn)); m.values_check("by an array operation"); }, 64});
    F.push_back({"overlap", "v(2:n) = v(2:n)*v(1:n-1) on overlapping sections, n = 2..20: right-hand side uses the old elements", 19,
      [=](uint64_t i, Machine &m) { int n = 2 + i; std::vector<int> a, dn; for (int k = 0; k < n; k++) a.push_back(m.leaf(pos(k))); for (int k = 0; k < n; k++) dn.push_back(m.add()); auto ra = m.regs(a), rd = m.regs(dn); m.say("overlap n %d", n); fz_overlap(n, rd.data(), ra.data());
        m.edge(dn[0], a[0], 1, 0); m.n[dn[0]].alias = true; m.chkval(dn[0], m.v(a[0]), 0, "first"); for (int k = 1; k < n; k++) { m.chkval(dn[k], (q)m.v(a[k]) * m.v(a[k - 1]), 1e-15Q * fabs(m.v(a[k]) * m.v(a[k - 1])), "product"); m.edge(dn[k], a[k], m.v(a[k - 1]), 0); m.edge(dn[k], a[k - 1], m.v(a[k]), 0); }
        for (int r : dn) m.grad_check(r); m.values_check("by overlap"); }, 4});
    F.push_back({"lse-real", "log_sum_exp of real arrays: lengths 1..5 over values {-inf, -745, -1, 0, 1, 700, 1e4} in every combination", 5ull * 16807,
      [=](uint64_t i, Machine &m) { Idx d(i); int L = 1 + d.pick(5); uint64_t t = d.x, lim = 1; for (int k = 0; k < L; k++) lim *= 7; if (t >= lim) throw Skip(); static const double V[] = {-INFINITY, -745, -1, 0, 1, 700, 1e4}; double x[5], mx = -INFINITY; for (int k = 0; k < L; k++) { x[k] = V[t % 7]; t /= 7; mx = fmax(mx, x[k]); }
        q e = mx; if (std::isfinite(mx)) { q s = 0; for (int k = 0; k < L; k++) s += expq((q)x[k] - mx); e = mx + logq(s); } double g = fz_lse_d(L, x); ++*g_checks; m.say("log_sum_exp of %d reals, max %g", L, mx); int nd = m.add(); m.n[nd].v = g; m.edge(nd, L, d.x, 0); if (!(g == (double)e || fabsq(g - e) <= 1e-13Q * (fabsq(e) + 1))) m.bad(fmt("log_sum_exp = %.17g, expected %s", g, qs(e).c_str())); }, 4096});
  }
  if (sel == "C11") {
    static const double Y[] = {0.5, 1.0, 2.5, 1e-3, 40.0, 7.25, -1.5, 0.0, -30.0}, MU[] = {0.0, 1.0, -2.5, 0.7, 30.0, 1e4}, SG[] = {1.0, 0.5, 3.0, 1e-2, 250.0};
    F.push_back({"grid", "{normal, lognormal} x {var-var, var-real, real-var} x all data vectors of length 1..3 over 9 values x 6 locations x 5 scales x {contiguous, strided}", 2ull * 3 * 6 * 5 * 2 * (9 + 81 + 729),
      [=](uint64_t i, Machine &m) { Idx d(i); int which = d.pick(2), mode = d.pick(3), mu = d.pick(6), sg = d.pick(5), lay = d.pick(2); uint64_t t = d.x; int L = 1; if (t >= 90) { L = 3; t -= 90; } else if (t >= 9) { L = 2; t -= 9; } std::vector<double> y; for (int k = 0; k < L; k++) { y.push_back(Y[t % 9]); t /= 9; }
        int a = m.leaf(MU[mu]), b = m.leaf(SG[sg]); int r = m.lpdf(which, mode, y, a, b, MU[mu], SG[sg], lay); m.grad_check(r); int w = m.vd(MUL, r, -2.5); m.grad_check(w); m.values_check("by a log density"); 
        if (mode == 0) { double g = fz_lpdf_dd(which, L, y.data(), MU[mu], SG[sg]); ++*g_checks; double v = m.v(r); if (!(fabs(g - v) <= 1e-12 * (fabs(v) + 100 * L))) { if (fabs(g - v) > 1e-9 * fabs(v)) m.bad(fmt("log density of reals %.17g differs from that of variables %.17g", g, v)); } } }, 64});
    F.push_back({"lookalikes", "two log densities in a row of the same or the other kind, argument mix and parameters, the second with one datum changed (every position of 1..6), one fewer at either end, two swapped or none x gradients in 2 orders x {same level, second one nested}", 2ull * 2 * 3 * 6 * 10 * 3 * 2 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int w1 = d.pick(2), w2 = d.pick(2), mode = d.pick(3), L = 1 + d.pick(6), var = d.pick(10), par = d.pick(3), ord = d.pick(2), nest = d.x; std::vector<double> y; for (int k = 0; k < L; k++) y.push_back(0.3 + 0.41 * k); std::vector<double> z = y;
        if (var < 6) { if (var >= L) throw Skip(); z[var] += 0.77; } else if (var == 6) { if (L < 2) throw Skip(); z.pop_back(); } else if (var == 7) { if (L < 2) throw Skip(); z.erase(z.begin()); } else if (var == 8) { if (L < 2) throw Skip(); std::swap(z[0], z[L - 1]); }
        int a = m.leaf(0.7), b = m.leaf(1.3), a2 = a, b2 = b; double xa = 0.7, xb = 1.3; if (par == 1) { a2 = m.leaf(-0.4); xa = -0.4; } if (par == 2) { b2 = m.leaf(2.2); xb = 2.2; }
        int r = m.lpdf(w1, mode, y, a, b, 0.7, 1.3, 0); if (nest) { m.say("begin"); fz_begin(); } int s = m.lpdf(w2, mode, z, a2, b2, xa, xb, 0); m.grad_check(ord ? r : s); m.grad_check(ord ? s : r);
        if (nest) { m.say("end"); fz_end(); m.n.resize(s); m.values_check("by a nested environment"); m.grad_check(r); } else { m.grad_check(m.vv(SUB, r, s)); m.values_check("by a log density"); } }, 64});
    F.push_back({"sizes", "{normal, lognormal} x 3 argument mixes x sample sizes 1..130, 255..257, 1000, 3000 x 4 parameter settings x {contiguous, strided}", 2ull * 3 * 135 * 4 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int which = d.pick(2), mode = d.pick(3), L = 1 + d.pick(135), st = d.pick(4), lay = d.x; static const int X[] = {255, 256, 257, 1000, 3000}; if (L > 130) L = X[L - 131]; std::vector<double> y; for (int k = 0; k < L; k++) y.push_back(which || st % 2 ? 0.2 + 0.37 * (k % 17) : 1.5 - 0.31 * (k % 19));
        int a = m.leaf(MU[st]), b = m.leaf(SG[st]); int r = m.lpdf(which, mode, y, a, b, MU[st], SG[st], lay); m.grad_check(r); int w = m.vv(MUL, r, a); m.grad_check(w); }, 32});
    F.push_back({"extremes", "{normal, lognormal} x {var-var, var-real, real-var} x 12 scales from 1e-300 to 1e300 x residuals of 6 sizes relative to the scale x 1..3 data", 2ull * 3 * 12 * 6 * 6 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); static const double S[12] = {1e-300, 1e-200, 1e-160, 1e-120, 1e-80, 1e-30, 1e30, 1e80, 1e120, 1e160, 1e200, 1e300}, Z[6] = {0, 1.5, -0.75, 1e-3, -40, 1e3}; int which = d.pick(2), mode = d.pick(3); double s = S[d.pick(12)]; double z = Z[d.pick(6)], z2 = Z[d.pick(6)]; int L = 1 + d.x;
        double mu = 0; std::vector<double> y; if (which) { if (s > 1) { mu = -z * s; y = {1.0, 2.5, 0.5}; } else { mu = z * s; y = {1.0, 1.0, 1.0}; } } else { mu = z2 * s; y = {mu + z * s, mu - s, 0.0}; } y.resize(L); for (double v : y) if (!std::isfinite(v)) throw Skip(); if (!std::isfinite(mu)) throw Skip();
        int a = m.leaf(mu), b = m.leaf(s); int r = m.lpdf(which, mode, y, a, b, mu, s, 0); m.grad_check(r); }, 64});
    auto A = std::make_shared<Alpha>(Alpha{kvv(MUL), kvv(ADD), kun(EXP), kun(SQUARE), kvd(ADD, 0.0), kcopy(), kx(K_LPDF), kx(K_LPDF1, 1)});
    uint64_t p1 = steps(*A, 2), p3 = steps(*A, 4);
    F.push_back({"expressions", "parameters computed by every operation from two inputs, location and scale any variables (also the same one), result entering every further operation", p1 * 9 * 6 * p3 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int set = d.pick(2), which = d.pick(2), mode = d.pick(3); uint64_t s1 = d.pick(p1); int mu = d.pick(3), sg = d.pick(3); m.leaf(set ? 0.4 : 1.25); m.leaf(set ? 2.0 : 0.6); step(m, *A, s1, 2);
        int r = m.lpdf(which, mode, {0.7, 1.4, 0.2}, mu, sg, 0.3, 1.2, 0); m.grad_check(r); step(m, *A, d.x, 4); m.grad_check(4); m.values_check("by a log density"); }, 64});
  }
}
