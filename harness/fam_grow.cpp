// C08 storage growth
#include "fz.h"
#include <memory>
void fam_grow(Fams &F, bool th, const std::string &sel) {
  if (sel != "C08") return;
  auto K = std::make_shared<Alpha>(all_kinds());
  auto A = std::make_shared<Alpha>(Alpha{kvv(MUL), kx(K_SUM3), kun(SIN), kx(K_PART2), kx(K_MM), kcopy(), kleaf(0.4)});
  auto roots = [](Machine &m) { for (int r = 0; r < (int)m.n.size(); r++) m.grad_check(r); };
  if (g_cap > 0) {
    // library built with a tiny initial capacity: growth happens at every step of small programs
    F.push_back({"fresh", "every program of up to 2 operations of any kind as the first use of an untouched library (own process each)", progs(*K, 1, 1) + progs(*K, 1, 1) * (th ? steps(*K, 2) : 24),
      [=](uint64_t i, Machine &m) { m.leaf(0.7); uint64_t p = progs(*K, 1, 1); if (i < p) { step(m, *K, i, 1); } else { i -= p; step(m, *K, i % p, 1); uint64_t s = i / p; step(m, *K, th ? s : s * 7 % steps(*K, 2), 2); } roots(m); m.values_check("by growth"); }, 1});
    F.push_back({"programs", "every program of 3 operations over {product, sum, sin, partials, matmul, copy, new variable}, on an untouched library per 8 programs", progs(*A, 1, 3),
      [=](uint64_t i, Machine &m) { m.leaf(0.7); Idx d(i); for (int k = 0; k < 3; k++) step(m, *A, d.pick(steps(*A, 1 + k)), 1 + k); roots(m); m.values_check("by growth"); }, 8});
  }
  // sequences of records of chosen sizes: the k-th record is larger than, equal to or smaller than what remains
  static const int SZ[] = {1, 2, 3, 5, 8, 13, 40, 200, 1100, 3100};
  int ns = g_cap > 0 ? 8 : 10;
  F.push_back({"record-sizes", fmt("every sequence of 3 records of %d sizes (1..%d operands) and 6 kinds (sum, dot_product, matmul, partials, log density data, user rule with data), alone in a process", ns, SZ[ns - 1]), (uint64_t)ns * ns * ns * 6 * 2,
    [=](uint64_t i, Machine &m) { Idx d(i); int kd = d.pick(6); bool ne = d.pick(2); int base = 4; for (int k = 0; k < base; k++) m.leaf(0.5 + 0.3 * k); std::vector<int> res; if (ne) { m.say("begin"); fz_begin(); }
      for (int k = 0; k < 3; k++) { int n = SZ[d.pick(ns)]; std::vector<int> a, b; std::vector<double> x; for (int j = 0; j < n; j++) { a.push_back((j * 3 + k) % (int)m.n.size()); b.push_back((j + k) % base); x.push_back(0.02 * (j % 7) + 0.01); } int r;
        switch ((kd + k) % 6) { case 0: r = m.red(0, a); break; case 1: r = m.dot(0, a, b, {}); break; case 2: r = m.matmul(0, 1, n, 1, a, b, {}, {}, 0)[0]; break; case 3: r = m.partials(a, 0.3, x); break; case 4: r = m.lpdf(0, 0, x, 0, 1, 0, 0, 0); break; default: r = m.custom(3, 0.2, {a[0], b[n - 1]}, x); }
        r = m.vd(MUL, r, 1e-3); res.push_back(r); m.values_check("by growth"); }
      for (int r : res) m.grad_check(r); m.grad_check(0); if (ne) { fz_end(); m.n.resize(4); m.leaf(1.5); m.values_check("by end"); m.grad_check(4); } }, g_cap > 0 ? 4u : 1u, 60});
  // every number of previously created variables around the capacities, then each kind of record
  auto prefill = [=](const char *name, int lo, int hi, int stride, int kinds) {
    return Family{name, fmt("%d..%d variables already created (every count, %s), then every kind of operation twice, values and gradients of the last variables checked", lo, hi, stride == 1 ? "of single records" : "of mixed record sizes"), (uint64_t)(hi - lo + 1) * kinds,
      [=](uint64_t i, Machine &m) { Idx d(i); int n = lo + (int)d.pick(hi - lo + 1); uint64_t k = d.x; 
        // fill without the model
        m.say("%d variables created (pattern %d)", n, stride); int s = 50000;
        for (int j = 0; j < n; j++) { if (stride == 1 || j < 3) fz_var(s + j % 3000, 0.1 * (j % 9) + 0.3); else { int rr[4] = {s + (j - 1) % 3000, s + (j - 2) % 3000, s, s + 1}; if (j % 2) fz_red(0, s + j % 3000, 1 + j % 4, rr, 0); else fz_vd(MUL, s + j % 3000, rr[0], 0.25); } }
        m.leaf(0.7); int a = step(m, *K, k % steps(*K, 1), 1); step(m, *K, (k * 5 + 3) % steps(*K, 2), 2); m.values_check("by growth"); roots(m); int w = m.vv(MUL, a, 0); m.grad_check(w); if (n > 3) { double v = fz_val(s), e = 0.3; if (v != e && n <= 3000) m.bad(fmt("first variable has value %.17g after growth, expected %.17g", v, e)); } }, 1, 60}; };
  int nk = (int)steps(*K, 1);
  if (g_cap > 0) F.push_back(prefill("prefill", 0, 40, 1, nk));
  else {
    F.push_back(prefill("prefill-1024", 1012, 1028, 1, nk));
    F.push_back(prefill("prefill-2048", 2040, 2052, 1, th ? nk : 12));
    F.push_back(prefill("prefill-mixed", 1250, th ? 2200 : 1700, 2, 3));
    F.push_back(prefill("prefill-all", 0, th ? 4200 : 1100, 1, 2));
  }
  // one record much larger than what has been allocated, and sizes at the exact capacities
  if (g_cap == 0) {
    std::vector<int> H; for (int x : {1023, 1024, 2048, 3072, 6144, 8192, 12288, 24576}) for (int e = -3; e <= 3; e++) H.push_back(x + e); H.push_back(30000); H.push_back(60000);
    F.push_back({"huge-records", fmt("one record of every size around the capacities and their halves, thirds and multiples (%zu sizes up to 60000 operands or data items) of 3 kinds, as first use or after other records, inside and outside a nested environment, followed by ordinary operations", H.size()), (uint64_t)H.size() * 3 * 2 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); int n = H[d.pick(H.size())], kd = d.pick(3), pre = d.pick(2), ne = d.pick(2); m.leaf(0.8); m.leaf(1.7); int keep = m.vv(MUL, 0, 1);
        if (pre) for (int k = 0; k < 1500; k++) { if (k % 3) fz_var(50000 + k, 1.0); else fz_vv(MUL, 50000 + k, m.reg(0), m.reg(1)); }
        if (ne) { m.say("begin"); fz_begin(); } std::vector<int> a; std::vector<double> x; for (int j = 0; j < n; j++) { a.push_back(j % 2); x.push_back(1e-3 * (1 + j % 7)); }
        int r = kd == 0 ? m.red(0, a) : kd == 1 ? m.partials(a, 0.3, x) : m.lpdf(0, 0, x, 0, 1, 0, 0, 0); r = m.vd(MUL, r, 1e-3); int q = m.vv(MUL, r, 0); m.values_check("by growth"); m.grad_check(q); m.grad_check(r); m.grad_check(keep);
        if (ne) { fz_end(); m.n.resize(3); m.leaf(1.5); m.values_check("by end"); m.grad_check(3); m.grad_check(keep); } }, 2, 60});
  }
  // growth inside nested environments and during gradient sweeps of histories
  int L = g_cap > 0 ? (th ? 7 : 5) : 4; uint64_t c = 1; for (int k = 0; k < L; k++) c *= 7;
  F.push_back({"nested-growth", fmt("every history of %d actions of {begin, end, one variable, 3 variables, wide sum, product, grad} %s", L, g_cap > 0 ? "alone in a process (growth at every step)" : "after 1018 variables"), c,
    [=](uint64_t i, Machine &m) { std::vector<size_t> marks; if (g_cap == 0) { m.say("1018 variables"); for (int k = 0; k < 1018; k++) fz_var(50000 + k, 1.0); } m.leaf(0.8);
      for (int k = 0; k < L; k++) { int a = i % 7; i /= 7; int nw = m.n.size() - 1; switch (a) { case 0: m.say("begin"); fz_begin(); marks.push_back(m.n.size()); break; case 1: if (marks.empty()) throw Skip(); m.say("end"); fz_end(); m.n.resize(marks.back()); marks.pop_back(); break; case 2: m.leaf(0.3 + 0.2 * k); break; case 3: m.leaf(1.1); m.leaf(-0.4); m.leaf(0.6); break; case 4: m.red(0, {nw, 0, nw, 0, nw, nw, 0}); break; case 5: m.vv(MUL, nw, 0); break; case 6: m.grad_check(nw); break; } m.values_check("by growth"); }
      while (!marks.empty()) { m.say("end"); fz_end(); m.n.resize(marks.back()); marks.pop_back(); m.values_check("by end"); } m.vv(MUL, (int)m.n.size() - 1, 0); m.grad_check((int)m.n.size() - 1); m.grad_check(0); }, g_cap > 0 ? 4u : 16u});
}
